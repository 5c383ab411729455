SEEDS = {}


def S(id, property, needs, breaks, edits, main=None, **k):
    SEEDS[id] = dict(property=property, needs=needs, breaks=breaks, edits=edits, main=main, **k)


S("c01-entry-after-ty", "C01", "a formatted property with a type annotation, a non-empty after_ty and an empty value representation prefix",
  "whitespace and comments between an entry's type annotation and its value are dropped for properties",
  {"src/entry.rs": [('            write!(f, "{after_ty}{value_repr}")?;',
                     '            if self.name.is_some() && self.ty.is_some() {\n                write!(f, "{value_repr}")?;\n            } else {\n                write!(f, "{after_ty}{value_repr}")?;\n            }')]},
  '''
fn main() {
    let src = "node key=(t)/* why */1\\n";
    let doc = kdl::KdlDocument::parse_v2(src).unwrap();
    assert_eq!(doc.to_string(), src);
    let src = "node (t) 1\\n";
    assert_eq!(kdl::KdlDocument::parse_v2(src).unwrap().to_string(), src);
}
''')

S("c01-node-trailing", "C01", "a formatted node that has children and text after its terminator",
  "the trailing text of a node is not rendered when the node has a children block",
  {"src/node.rs": [('            write!(f, "{before_terminator}{terminator}{trailing}")?;',
                    '            write!(f, "{before_terminator}{terminator}")?;\n            if self.children.is_none() || terminator.is_empty() {\n                write!(f, "{trailing}")?;\n            }')]},
  '''
fn main() {
    let mut node = kdl::KdlNode::new("a");
    node.ensure_children().nodes_mut().push(kdl::KdlNode::new("b"));
    node.set_format(kdl::KdlNodeFormat { leading: "".into(), before_children: " ".into(), terminator: ";".into(), trailing: " // note\\n".into(), ..Default::default() });
    assert!(node.to_string().contains("// note"), "{node}");
}
''')

S("c07-ident-eq", "C07", "two identifiers with the same value, one with a representation and one without",
  "identifier equality ignores the representation unless both sides have one, so equal identifiers hash differently",
  {"src/identifier.rs": [("        self.value == other.value && self.repr == other.repr",
                          "        self.value == other.value\n            && (self.repr.is_none() || other.repr.is_none() || self.repr == other.repr)")]},
  '''
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    let a = kdl::KdlIdentifier::from("foo");
    let b = kdl::KdlIdentifier::parse("\\"foo\\"").unwrap();
    assert!(a != b || h(&a) == h(&b));
}
''')

S("c07-float-hash", "C07", "0.0 compared with -0.0",
  "0.0 and -0.0 are equal but hash differently",
  {"src/value.rs": [("                (val.fract() as i128).hash(state);",
                     "                val.to_bits().hash(state);")]},
  '''
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }
fn main() {
    for (a, b) in [(f64::NAN, -f64::NAN), (0.0, -0.0), (f64::from_bits(f64::NAN.to_bits() | 1), f64::NAN)] {
        let (a, b) = (kdl::KdlValue::Float(a), kdl::KdlValue::Float(b));
        assert!(a != b || h(&a) == h(&b));
        assert!(a == a.clone());
    }
}
''')

S("c11-children-entries", "C11", "a node whose property name carries a representation, below the first level",
  "clear_format_recursive does not clear the entries of nodes without children",
  {"src/node.rs": [("        for entry in self.entries.iter_mut() {\n            entry.clear_format();\n        }",
                    "        if self.children.is_some() || self.entries.len() > 1 {\n            for entry in self.entries.iter_mut() {\n                entry.clear_format();\n            }\n        }")]},
  '''
fn main() {
    let mut doc = kdl::KdlDocument::parse_v2("a 1 {\\n  b   0x10\\n}\\n").unwrap();
    doc.clear_format_recursive();
    assert_eq!(doc.to_string(), "a 1 {\\n    b 16\\n}\\n");
}
''')
SEEDS = {k: v for k, v in SEEDS.items() if v}

S("c08-entry-mut-first", "C08", "a node in which a property name occurs twice, changed through get_mut, entry_mut, indexing or insert",
  "mutable lookups by name address the first property of that name while get and entry address the last",
  {"src/node.rs": [("""                for entry in &mut self.entries {
                    if entry.name.is_some()
                        && entry.name.as_ref().map(|i| i.value()) == Some(key.value())
                    {""", """                for entry in &mut self.entries {
                    if current.is_none()
                        && entry.name.is_some()
                        && entry.name.as_ref().map(|i| i.value()) == Some(key.value())
                    {""")]},
  '''
fn main() {
    let mut node: kdl::KdlNode = "n a=1 b=2 a=3".parse().unwrap();
    *node.get_mut("a").unwrap() = 10.into();
    assert_eq!(node.get("a"), Some(&10.into()));
}
''')

S("c08-insert-pos", "C08", "inserting an argument by index into a node whose properties come before its arguments",
  "insert by index counts only arguments when it picks the place, so the argument lands before the wrong one",
  {"src/node.rs": [("                            self.entries.insert(idx_existing, entry);",
                    "                            self.entries.insert(current_idx.max(idx_existing.min(idx)), entry);")]},
  '''
fn main() {
    let mut node: kdl::KdlNode = "n k=1 1 j=2 2".parse().unwrap();
    node.insert(1, 9);
    assert_eq!(node.get(0), Some(&1.into()));
    assert_eq!(node.get(1), Some(&9.into()));
    assert_eq!(node.get(2), Some(&2.into()));
}
''')

S("c08-get-arg-first", "C08", "a node whose first entry is a property and which has an argument after it",
  "get_arg only finds the first argument when it is the node's first entry",
  {"src/document.rs": [("        self.get(name).and_then(|node| node.get(0))\n",
                        "        self.get(name)\n            .and_then(|node| node.entries().iter().find(|e| e.name().is_none() || e.format().is_some()))\n            .filter(|e| e.name().is_none())\n            .map(|e| e.value())\n")]},
  '''
fn main() {
    let doc: kdl::KdlDocument = "n k=1 2\\nm 3".parse().unwrap();
    assert_eq!(doc.get_arg("m"), Some(&3.into()));
    assert_eq!(doc.get_arg("n"), Some(&2.into()));
}
''')

S("c14-set-value-ty", "C14", "an entry with a type annotation whose value is replaced by one of another kind",
  "set_value drops the annotation when the kind of the value changes",
  {"src/entry.rs": [("        self.value = value.into();\n    }\n\n    /// Gets this entry's span.",
                     "        let value = value.into();\n        if std::mem::discriminant(&value) != std::mem::discriminant(&self.value) && !value.is_null() {\n            self.ty = None;\n        }\n        self.value = value;\n    }\n\n    /// Gets this entry's span.")]},
  '''
fn main() {
    let mut e = kdl::KdlEntry::new(1);
    e.set_ty("u8");
    e.set_value("a");
    assert_eq!(e.ty().map(|t| t.value()), Some("u8"));
}
''')

S("c14-ensure-children", "C14", "a node whose children block holds no nodes but carries formatting (a comment)",
  "ensure_children replaces an existing children block without nodes",
  {"src/node.rs": [("        if self.children.is_none() {\n            self.children = Some(KdlDocument::new());",
                    "        if !self.children.as_ref().is_some_and(|c| !c.nodes().is_empty()) {\n            self.children = Some(KdlDocument::new());")]},
  '''
fn main() {
    let mut n: kdl::KdlNode = "a {\\n// keep\\n}".parse().unwrap();
    n.ensure_children();
    assert!(n.to_string().contains("// keep"));
}
''')

S("c29-as-float-finite", "C29", "a NaN or infinite float",
  "as_float finds nothing in a float that is not finite, although is_float says it is one",
  {"src/value.rs": [("    pub fn as_float(&self) -> Option<f64> {\n        match self {\n            Self::Float(i) => Some(*i),", "    pub fn as_float(&self) -> Option<f64> {\n        match self {\n            Self::Float(i) if i.is_finite() => Some(*i),")]},
  '''
fn main() {
    for v in [1.5, f64::INFINITY, f64::NEG_INFINITY, f64::NAN] {
        assert!(kdl::KdlValue::Float(v).as_float().is_some());
    }
}
''')

S("c12-keep-depth", "C12", "entry_autoformate_keep on a document nested at least two levels deep",
  "the option to keep entry formatting is not handed down below the second level",
  {"src/node.rs": [("                indent_level: config.indent_level + 1,\n                ..*config\n", "                indent_level: config.indent_level + 1,\n                entry_autoformate_keep: config.entry_autoformate_keep && config.indent_level == 0,\n                ..*config\n")]},
  '''
fn main() {
    let mut d: kdl::KdlDocument = kdl::KdlDocument::parse_v2("a 0x1 {\\nb 0x2 {\\nc 0x3\\n}\\n}\\n").unwrap();
    let mut c = kdl::FormatConfig::default();
    c.entry_autoformate_keep = true;
    d.autoformat_config(&c);
    assert!(d.to_string().contains("0x3"), "{d}");
}
''')

S("c13-first-line", "C13", "a comment of several lines before a node's terminator",
  "only the first line of the text before a node's terminator survives autoformat",
  {"src/fmt.rs": [("        for comment in decor.lines() {", "        for comment in decor.lines().take(1) {")]},
  '''
fn main() {
    let mut d = kdl::KdlDocument::parse_v2("a /* one\\n two */\\nb\\n").unwrap();
    d.autoformat();
    assert!(d.to_string().contains("two"), "{d}");
}
''')

S("c13-indent-clamp", "C13", "nodes more than eight levels deep",
  "indentation stops growing at the eighth level",
  {"src/fmt.rs": [("    for _ in 0..config.indent_level {\n        result.push_str(config.indent);\n    }\n    *leading = result;", "    for _ in 0..config.indent_level.min(8) {\n        result.push_str(config.indent);\n    }\n    *leading = result;")]},
  '''
fn main() {
    let mut d = kdl::KdlDocument::parse_v2(&format!("{}x\\n{}", "a {\\n".repeat(12), "}\\n".repeat(12))).unwrap();
    d.autoformat();
    assert!(d.to_string().contains(&format!("\\n{}x\\n", "    ".repeat(12))), "{d}");
}
''')

S("c24-unformatted-nodes", "C24", "a node without formatting of its own in a formatted tree",
  "ensure_v2 skips nodes that carry no formatting, so their entries keep their v1 spelling",
  {"src/document.rs": [("        for node in self.nodes_mut().iter_mut() {\n            node.ensure_v2();", "        for node in self.nodes_mut().iter_mut().filter(|n| n.format().is_some()) {\n            node.ensure_v2();")]},
  '''
fn main() {
    let mut d: kdl::KdlDocument = kdl::KdlDocument::parse_v1("a true {\\nb null\\n}\\n").unwrap();
    d.nodes_mut()[0].clear_format();
    d.ensure_v2();
    assert!(d.to_string().contains("#true"), "{d}");
}
''', features=["v1"])

S("c24-empty-block", "C24", "a node whose children block has no nodes",
  "ensure_v2 drops empty children blocks",
  {"src/node.rs": [("        self.children = self.children.take().map(|mut doc| {\n            doc.ensure_v2();", "        self.children = self.children.take().filter(|doc| !doc.nodes().is_empty() || doc.format().is_some()).map(|mut doc| {\n            doc.ensure_v2();")]},
  '''
fn main() {
    let mut n = kdl::KdlNode::new("a");
    n.set_children(kdl::KdlDocument::new());
    n.ensure_v2();
    assert!(n.children().is_some());
}
''', features=["v1"])

S("c24-number-spelling", "C24", "an entry with a number written in another base, converted to v1",
  "ensure_v1 rewrites numbers in decimal instead of keeping their spelling",
  {"src/entry.rs": [('''                KdlValue::Null => "null".to_string(),
                // These should be fine as-is?
                KdlValue::Integer(_) | KdlValue::Float(_) => x.value_repr.clone(),''', '''                KdlValue::Null => "null".to_string(),
                // v1 values are plain
                KdlValue::Integer(i) => i.to_string(),
                KdlValue::Float(_) => x.value_repr.clone(),''')]},
  '''
fn main() {
    let mut d = kdl::KdlDocument::parse_v2("a 0xff\\n").unwrap();
    d.ensure_v1();
    assert!(d.to_string().contains("0xff"), "{d}");
}
''', features=["v1"])

S("c09-fallback-heuristic", "C09", "a v1 document that also looks like v2 (mentions #true in a string), v1-fallback on",
  "a valid v1 document that matches the v2 heuristic is not parsed as v1",
  {"src/document.rs": [("                if v1_res.is_ok() || detect_v1(s) {", "                if (v1_res.is_ok() && !detect_v2(s)) || detect_v1(s) {")]},
  '''
fn main() {
    let r = kdl::KdlDocument::parse("a r\\"#true\\" \\n");
    assert!(r.is_ok(), "{r:?}");
}
''', features=["v1-fallback"])

S("c09-fromstr-trim", "C09", "an identifier with surrounding white space parsed through FromStr",
  "FromStr for KdlIdentifier accepts text that KdlIdentifier::parse rejects",
  {"src/identifier.rs": [("    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::parse(s)", "    fn from_str(s: &str) -> Result<Self, Self::Err> {\n        Self::parse(s.trim_end_matches('\\u{FEFF}'))")]},
  '''
fn main() {
    let s = "foo\\u{FEFF}";
    assert_eq!(kdl::KdlIdentifier::parse(s).is_ok(), s.parse::<kdl::KdlIdentifier>().is_ok());
}
''')

S("c09-entry-fallback", "C09", "an entry in v1 syntax that starts with a parenthesis, v1-fallback on",
  "KdlEntry::parse does not try v1 for entries with type annotations",
  {"src/entry.rs": [("                .or_else(|e| KdlEntry::parse_v1(s).map_err(|_| e))", "                .or_else(|e| match s.strip_prefix('(') {\n                    Some(_) => Err(e),\n                    None => KdlEntry::parse_v1(s).map_err(|_| e),\n                })")]},
  '''
fn main() {
    assert!(kdl::KdlEntry::parse("true").is_ok());
    assert!(kdl::KdlEntry::parse("(\\"a b\\")true").is_ok());
}
''', features=["v1-fallback"])

S("c10-unclosed-empty", "C10", "an unclosed children block without nodes",
  "an unclosed children block is only reported when nodes were read in it",
  {"src/v2_parser.rs": [("                input.record_err(&_before_open, &_before_open, e)?;\n                if !ns.is_empty() {", "                if ns.nodes().is_empty() && ns.len() > 1 {\n                    return Ok(ns);\n                }\n                input.record_err(&_before_open, &_before_open, e)?;\n                if !ns.is_empty() {")]},
  '''
fn main() {
    assert!(kdl::KdlDocument::parse_v2("a {").is_err());
    assert!(kdl::KdlDocument::parse_v2("a { /* c */").is_err());
    assert!(kdl::KdlDocument::parse_v2("a {\\n").is_err());
}
''')

S("c10-max-errors", "C10", "a document with more than sixteen errors",
  "only the first sixteen errors are reported",
  {"src/v2_parser.rs": [("            .map(|e| e.into_inner().unwrap())\n", "            .map(|e| e.into_inner().unwrap())\n            .take(16)\n")]},
  '''
fn main() {
    let n = |k: usize| kdl::KdlDocument::parse_v2(&"a =\\n".repeat(k)).unwrap_err().diagnostics.len();
    assert!(n(40) >= 20 * n(2) / 2, "{} {}", n(40), n(2));
}
''')

S("c10-v1-help", "C10", "a v1 error that has a help text",
  "the help text of v1 errors is dropped",
  {"src/error.rs": [("                help: value.help.map(|x| x.into()),", "                help: value.help.filter(|x| x.len() > 120).map(|x| x.into()),")]},
  '''
fn main() {
    for s in ["a 1.", "a \\"x", "a b=", "a /* x", "a {", "a 0x", "a (b", "a \\"\\\\q\\""] {
        let old = s.parse::<kdlv1::KdlDocument>().unwrap_err();
        let new = kdl::KdlDocument::parse_v1(s).unwrap_err();
        assert_eq!(old.help.map(|x| x.to_string()), new.diagnostics[0].help, "{s}");
    }
}
''', features=["v1"], deps='kdlv1 = { package = "kdl", version = "4.7.0" }')

S("c25-before-children", "C25", "a v1 node with a children block and no entries",
  "the text before the children block of an entry-less v1 node is dropped",
  {"src/node.rs": [('                before_children: value.before_children().unwrap_or("").into(),',
                    '                before_children: value.before_children().filter(|_| !value.entries().is_empty()).unwrap_or(" ").into(),')]},
  '''
fn main() {
    for s in ["a /* one */ {\\n b 1\\n}\\n", "a 1 /* one */ {\\n b 1\\n}\\n"] {
        assert_eq!(kdl::KdlDocument::parse_v1(s).unwrap().to_string(), s);
    }
}
''', features=["v1"])

S("c25-raw-newlines", "C25", "a v1 raw string with CRLF line breaks",
  "line breaks in v1 raw strings are normalised, changing the value",
  {"src/value.rs": [("            kdlv1::KdlValue::RawString(s) => Self::String(s),", "            kdlv1::KdlValue::RawString(s) => Self::String(s.replace(\"\\r\\n\", \"\\n\")),")]},
  '''
fn main() {
    let d = kdl::KdlDocument::parse_v1("a r\\"x\\r\\ny\\"\\n").unwrap();
    assert_eq!(d.get_arg("a").unwrap().as_string(), Some("x\\r\\ny"));
}
''', features=["v1"])

S("c25-prop-ty", "C25", "a v1 property with a type annotation",
  "the type annotation of v1 properties is dropped",
  {"src/entry.rs": [("            ty: value.ty().map(|x| x.clone().into()),\n            value: value.value().clone().into(),", "            ty: value.ty().filter(|_| value.name().is_none()).map(|x| x.clone().into()),\n            value: value.value().clone().into(),")]},
  '''
fn main() {
    let d = kdl::KdlDocument::parse_v1("a k=(u8)1 (u8)2\\n").unwrap();
    assert!(d.nodes()[0].entries().iter().all(|e| e.ty().is_some()));
}
''', features=["v1"])

SERDE = 'serde = { version = "1", features = ["derive"] }'

S("c16-u64", "C16", "an unsigned value above i64::MAX as a node's argument",
  "large unsigned integers are written as negative numbers",
  {"src/se.rs": [("""    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
        self.node
            .entries_mut()
            .push(KdlEntry::new(KdlValue::Integer(v as i128)));
        Ok(())
    }

    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
        self.node
            .entries_mut()
            .push(KdlEntry::new(KdlValue::Float(v)));
        Ok(())
    }

    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
        self.serialize_str(&v.to_string())
    }

    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
        let entry = KdlEntry::new(KdlValue::String(v.to_string()));
        self.node.entries_mut().push(entry);
        Ok(())
    }

    fn serialize_bytes""", """    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
        self.serialize_i64(v as i64)
    }

    fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
        self.serialize_f64(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
        self.node
            .entries_mut()
            .push(KdlEntry::new(KdlValue::Float(v)));
        Ok(())
    }

    fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
        self.serialize_str(&v.to_string())
    }

    fn serialize_str(self, v: &str) -> Result<Self::Ok, Self::Error> {
        let entry = KdlEntry::new(KdlValue::String(v.to_string()));
        self.node.entries_mut().push(entry);
        Ok(())
    }

    fn serialize_bytes""")]},
  '''
#[derive(serde::Serialize)]
struct A { a: u64, b: u64 }
fn main() {
    assert_eq!(kdl::se::to_string(&A { a: 7, b: u64::MAX }).unwrap(), "a 7\\nb 18446744073709551615\\n");
}
''', features=["serde"], deps=SERDE)

S("c16-empty-variant", "C16", "a struct variant inside a struct, all of whose fields are false or None",
  "the variant name is not written when no field was",
  {"src/se.rs": [("""        let mut node = KdlNode::new(self.variant);
        node.set_children(self.children);
        let parent_children = self.parent.ensure_children();
        parent_children.nodes_mut().push(node);
        Ok(())""", """        let parent_children = self.parent.ensure_children();
        if !self.children.is_empty() {
            let mut node = KdlNode::new(self.variant);
            node.set_children(self.children);
            parent_children.nodes_mut().push(node);
        }
        Ok(())""")]},
  '''
#[derive(serde::Serialize)]
struct A { a: E }
#[derive(serde::Serialize)]
enum E { On { x: bool, y: u8 } }
fn main() {
    assert!(kdl::se::to_string(&A { a: E::On { x: true, y: 1 } }).unwrap().contains("On"));
    #[derive(serde::Serialize)]
    struct B { a: F }
    #[derive(serde::Serialize)]
    enum F { Off { x: bool } }
    assert!(kdl::se::to_string(&B { a: F::Off { x: false } }).unwrap().contains("Off"));
}
''', features=["serde"], deps=SERDE)

S("c16-null-args", "C16", "a None inside a sequence of arguments",
  "null elements of a sequence are dropped, moving the ones behind them",
  {"src/se.rs": [("""    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
        let kdl_val = to_kdl_value(value)?;
        self.node.entries_mut().push(KdlEntry::new(kdl_val));
        Ok(())
    }

    fn end(self) -> Result<Self::Ok, Self::Error> {
        Ok(())
    }
}

impl<'a> ser::SerializeTuple for NodeSeqSerializer<'a> {""", """    fn serialize_element<T: ?Sized + Serialize>(&mut self, value: &T) -> Result<(), Self::Error> {
        let kdl_val = to_kdl_value(value)?;
        if kdl_val.is_null() && !self.node.entries().is_empty() {
            return Ok(());
        }
        self.node.entries_mut().push(KdlEntry::new(kdl_val));
        Ok(())
    }

    fn end(self) -> Result<Self::Ok, Self::Error> {
        Ok(())
    }
}

impl<'a> ser::SerializeTuple for NodeSeqSerializer<'a> {""")]},
  '''
#[derive(serde::Serialize)]
struct A { a: Vec<Option<u8>> }
fn main() {
    assert_eq!(kdl::se::to_string(&A { a: vec![None, Some(1)] }).unwrap(), "a #null 1\\n");
    assert_eq!(kdl::se::to_string(&A { a: vec![Some(1), None, Some(2)] }).unwrap(), "a 1 #null 2\\n");
}
''', features=["serde"], deps=SERDE)

S("c16-key-int", "C16", "a map with wide unsigned keys",
  "u64 map keys above i64::MAX become negative names",
  {"src/se.rs": [("""    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
        Ok(v.to_string())
    }""", """    fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
        self.serialize_i64(v as i64)
    }""")]},
  '''
fn main() {
    let m: std::collections::BTreeMap<u64, u8> = [(1u64, 1u8), (u64::MAX, 2)].into_iter().collect();
    let d = kdl::se::to_document(&m).unwrap();
    let names: Vec<&str> = d.nodes().iter().map(|n| n.name().value()).collect();
    assert_eq!(names, ["1", "18446744073709551615"]);
}
''', features=["serde"], deps=SERDE)

S("c16-lossy-prop", "C16", "a property field holding a value that is not a scalar",
  "a property whose value cannot be written is left out instead of failing",
  {"src/se.rs": [("""        if let Some(attr_name) = key.strip_prefix("#@") {
            let kdl_val = to_kdl_value(value)?;
            self.node
                .entries_mut()
                .push(KdlEntry::new_prop(attr_name, kdl_val));
        } else if key == "#args" {
            let mut ser = ArgsSerializer { node: self.node };
            value.serialize(&mut ser)?;
        } else if key == "#rest" {""", """        if let Some(attr_name) = key.strip_prefix("#@") {
            if let Ok(kdl_val) = to_kdl_value(value) {
                self.node
                    .entries_mut()
                    .push(KdlEntry::new_prop(attr_name, kdl_val));
            }
        } else if key == "#args" {
            let mut ser = ArgsSerializer { node: self.node };
            value.serialize(&mut ser)?;
        } else if key == "#rest" {""")]},
  '''
#[derive(serde::Serialize)]
struct A<T> { a: B<T> }
#[derive(serde::Serialize)]
struct B<T> { #[serde(rename = "#@p")] p: T }
fn main() {
    assert!(kdl::se::to_string(&A { a: B { p: 1 } }).unwrap().contains("p=1"));
    assert!(kdl::se::to_string(&A { a: B { p: vec![1, 2] } }).is_err());
}
''', features=["serde"], deps=SERDE)

S("c23-v1-span", "C23", "building with v1 but without span",
  "the v1 identifier conversion sets the span field whether or not there is one, so v1 without span no longer builds",
  {"src/identifier.rs": [("""            #[cfg(feature = "span")]
            span: (value.span().offset(), value.span().len()).into(),
""", """            span: (value.span().offset(), value.span().len()).into(),
""")]}, """
fn main() {
    let d = kdl::KdlDocument::v1_to_v2("a true").unwrap();
    assert_eq!(d.trim(), "a #true");
}
""", features=["v1"])

S("c31-rc-msg", "C31", "sending a serializer error to another thread",
  "the serializer's Error keeps its message in an Rc and is no longer Send",
  {"src/se.rs": [("""pub struct Error {
    msg: String,
}""", """pub struct Error {
    msg: std::rc::Rc<str>,
}"""), ("""            msg: msg.to_string(),
""", """            msg: msg.to_string().into(),
""")]}, """
fn main() {
    let m: std::collections::BTreeMap<Vec<u8>, u8> = [(vec![1], 1u8)].into_iter().collect();
    let e = std::thread::spawn(move || kdl::se::to_string(&m).unwrap_err()).join().unwrap();
    assert!(!e.to_string().is_empty());
}
""", features=["serde"], deps=SERDE)

S("c32-hash-order", "C32", "a document with several different node names read as a map",
  "the top-level map of a document yields its keys in the hash table's order",
  {"src/de.rs": [("""        let mut keys = Vec::new();
        let mut groups: std::collections::HashMap<&'a str, Vec<&'a KdlNode>> =
            std::collections::HashMap::new();
        for node in doc.nodes() {
            let name = node.name().value();
            if !groups.contains_key(name) {
                keys.push(name);
            }
            groups.entry(name).or_default().push(node);
        }
        DocumentMapAccess {
            keys,
""", """        let mut groups: std::collections::HashMap<&'a str, Vec<&'a KdlNode>> =
            std::collections::HashMap::new();
        for node in doc.nodes() {
            groups.entry(node.name().value()).or_default().push(node);
        }
        DocumentMapAccess {
            keys: groups.keys().copied().collect(),
""")]}, """
struct Order(Vec<String>);
impl<'de> serde::Deserialize<'de> for Order {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Order;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("a map") }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut m: A) -> Result<Order, A::Error> {
                let mut out = vec![];
                while let Some((k, _)) = m.next_entry::<String, i64>()? { out.push(k); }
                Ok(Order(out))
            }
        }
        d.deserialize_map(V)
    }
}
fn main() {
    let names: Vec<String> = (0..24).map(|i| format!("n{i}")).collect();
    let text: String = names.iter().map(|n| format!("{n} 1\\n")).collect();
    assert_eq!(kdl::de::from_str::<Order>(&text).unwrap().0, names);
}
""", features=["serde"], deps=SERDE)

S("c32-indent-once", "C32", "two autoformat calls with different indentation in one process",
  "the indentation text of a level is computed once per process and kept for all later configurations",
  {"src/fmt.rs": [("""    for _ in 0..config.indent_level {
        result.push_str(config.indent);
    }
    *leading = result;
""", """    static DEEP: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    if config.indent_level > 2 {
        // Deeply nested nodes are common; avoid rebuilding their indentation.
        let deep = DEEP.get_or_init(|| config.indent.repeat(3));
        result.push_str(deep);
        for _ in 3..config.indent_level {
            result.push_str(config.indent);
        }
    } else {
        for _ in 0..config.indent_level {
            result.push_str(config.indent);
        }
    }
    *leading = result;
""")]}, """
fn main() {
    let text = "a {\\nb {\\nc {\\nd\\n}\\n}\\n}\\n";
    let fmt = |indent: &str| {
        let mut d: kdl::KdlDocument = text.parse().unwrap();
        d.autoformat_config(&kdl::FormatConfig::builder().indent(indent).build());
        d.to_string()
    };
    assert!(fmt("  ").contains("\\n      d\\n"));
    assert!(fmt("\\t").contains("\\n\\t\\t\\td\\n"));
}
""")

VPF = "src/v2_parser.rs"
RT = '''
fn main() {
    for text in TEXTS {
        let doc = kdl::KdlDocument::parse_v2(text).unwrap();
        assert_eq!(&doc.to_string(), text);
    }
}
'''


def rt(*texts):
    return "const TEXTS: &[&str] = &[%s];" % ", ".join('"%s"' % t for t in texts) + RT


S("c02-eq-typed", "C02", "a property whose annotated value does not directly follow the equals sign",
  "the white space and comments between `=` and an annotated value are kept only when the value has no annotation",
  {VPF: [("""                fmt.after_eq = after_eq.into();
""", """                if value.ty.is_none() || after_eq.is_empty() {
                    fmt.after_eq = after_eq.into();
                } else {
                    fmt.after_ty = after_eq.into();
                }
"""), ("""            value.name = maybe_ident;
            if let Some(fmt) = value.format_mut() {""", """            value.name = maybe_ident;
            if let Some(fmt) = value.format.as_mut() {""")]}, rt("n a=1\\n", "n a = (t)1\\n", "n a=/*x*/(t)1\\n"))

S("c02-type-space", "C02", "a node type annotation with white space or a comment inside its parentheses",
  "the white space before and after the name in a node's type annotation changes places when the node also has white space after the annotation",
  {VPF: [("""    let (before_inner_ty, ty, after_inner_ty) = ty.unwrap_or_default();
    let (before_children""", """    let (mut before_inner_ty, ty, mut after_inner_ty) = ty.unwrap_or_default();
    if !after_ty.is_empty() && before_inner_ty.len() > after_inner_ty.len() {
        std::mem::swap(&mut before_inner_ty, &mut after_inner_ty);
    }
    let (before_children""")]}, rt("(t)n\\n", "( t)n\\n", "(/*a*/t ) n\\n"))

S("c02-bom-empty", "C02", "a byte-order mark in front of a document without nodes",
  "the byte-order mark is remembered only when the document has nodes",
  {VPF: [("""    if let Some(bom) = bom
        && let Some(fmt) = doc.format_mut()
    {
        fmt.leading = format!("{bom}{}", fmt.leading);
    }
    Ok(doc)""", """    let first = !doc.nodes.is_empty();
    if let Some(bom) = bom
        && let Some(fmt) = doc.format_mut()
        && first
    {
        fmt.leading = format!("{bom}{}", fmt.leading);
    }
    Ok(doc)""")]}, rt("\\u{feff}n\\n", "\\u{feff}// nothing\\n", "\\u{feff}"))

S("c02-terminator-ff", "C02", "a node ended by a form feed, next-line, line or paragraph separator",
  "node terminators other than newline, carriage return, semicolon and comments are normalised to a newline",
  {VPF: [("""            terminator: terminator.into(),
            ..Default::default()""", """            terminator: match terminator.chars().next() {
                Some(';' | '\\n' | '\\r' | '/') | None => terminator.into(),
                Some(_) => "\\n".into(),
            },
            ..Default::default()""")]}, rt("a\\r\\nb\\n", "a\\u{c}b\\n", "a\\u{2028}b\\n"))

S("c02-empty-block", "C02", "an empty children block that is not preceded by exactly one space",
  "what stands before an empty children block is replaced by one space",
  {VPF: [("""        .map(|(before_children, children)| (before_children.into(), Some(children)))
""", """        .map(|(before_children, children)| {
            let before = if children.nodes.is_empty() && before_children.trim().is_empty() {
                " "
            } else {
                before_children
            };
            (before.into(), Some(children))
        })
""")]}, rt("a { b; }\\n", "a {}\\n", "a  {}\\n", "a \\\\\\n {}\\n"))

S("c02-entry-leading", "C02", "parsing a lone entry that follows both a line break and a slash-dashed entry",
  "KdlEntry::parse overwrites the entry's own leading text when there are lines before it",
  {VPF: [("""            fmt.leading = format!("{leading}{}", fmt.leading);
""", """            if fmt.leading.is_empty() || !leading.is_empty() {
                fmt.leading = leading.into();
            }
""")]}, """
fn main() {
    for text in ["1", " 1", "\\n1", "/-0 1", "\\n/-0 1"] {
        assert_eq!(kdl::KdlEntry::parse(text).unwrap().to_string(), text);
    }
}
""")

S("c02-second-bom", "C02", "U+FEFF directly after a node terminator, as in concatenated files",
  "a byte-order mark after a node's terminator is accepted and forgotten",
  {VPF: [("""        alt((node_terminator.void(), (eof.void(), any.void()).void())),
    )
    .parse_next(input)?;
    let _span = span""", """        alt((
            // Tolerate the byte-order marks that concatenating files leaves behind.
            (node_terminator, opt(bom)).void(),
            (eof.void(), any.void()).void(),
        )),
    )
    .parse_next(input)?;
    let _span = span""")]}, """
fn main() {
    for text in ["a\\nb\\n", "\\u{feff}a\\nb\\n", "a\\n\\u{feff}b\\n"] {
        if let Ok(doc) = kdl::KdlDocument::parse_v2(text) {
            assert_eq!(doc.to_string(), text);
        }
    }
}
""")

S("c02-quoted-arg", "C02", "a string argument written as a raw string that contains no backslash and no quote",
  "string arguments written as raw strings are given a normalised spelling when they need no raw string",
  {VPF: [("""                value_repr: ident.repr.unwrap_or_else(|| ident.value.clone()),
""", """                value_repr: match ident.repr {
                    // The extra hashes carry no information.
                    Some(repr) if repr.starts_with("###") && !ident.value.contains(['"', '\\\\', '\\n']) => {
                        format!("#\\"{}\\"#", ident.value)
                    }
                    Some(repr) => repr,
                    None => ident.value.clone(),
                },
""")]}, rt('a #\\"x\\"#\\n', 'a ###\\"x\\"###\\n'))


def acc(cases, call="kdl::KdlDocument::parse_v2"):
    return """
fn main() {
    for (text, ok) in [%s] {
        assert_eq!(%s(text).is_ok(), ok, "{text:?}");
    }
}
""" % (", ".join('("%s", %s)' % (t, "true" if ok else "false") for t, ok in cases), call)


S("c03-sign-ident", "C03", "a bare word that starts with a sign, a dot and then a digit behind a sign-like letter",
  "signed identifiers no longer refuse a dot after the sign, so -.5 becomes a bare string",
  {VPF: [('    not(alt((digit1.void(), ".".void()))).parse_next(input)?;\n    repeat(0.., identifier_char)', '    not(digit1).parse_next(input)?;\n    repeat(0.., identifier_char)')]},
  acc([("-.5", False), ("+.5", False), ("-.a", True), ("-a", True)], "kdl::KdlIdentifier::parse"))




S("c03-type-newline", "C03", "a newline inside a type annotation",
  "line breaks are accepted around the name in a type annotation",
  {VPF: [('''        .map(|opt| opt.map(|(i, _)| i)),
        node_space0.take(),
    )
        .parse_next(input)?;
    ")"''', '''        .map(|opt| opt.map(|(i, _)| i)),
        repeat(0.., line_space).map(|()| ()).take(),
    )
        .parse_next(input)?;
    ")"''')]},
  acc([("(t )a", True), ("(t\\n)a", False), ("(t \\n )a", False), ("(t /* x */)a", True)]))


S("c03-unicode-escape", "C03", "a unicode escape with more than six digits, all leading zeros",
  "unicode escapes take up to eight digits",
  {VPF: [("cut_err(take_while(1..=6, AsChar::is_hex_digit))", "cut_err(take_while(1..=8, AsChar::is_hex_digit))")]},
  acc([('a \\"\\\\u{41}\\"', True), ('a \\"\\\\u{0000041}\\"', False), ('a \\"\\\\u{10ffff}\\"', True)]))

S("c03-prop-space", "C03", "white space between a property name and `=`",
  "white space is accepted before `=` only when it is a single run of spaces without comments",
  {VPF: [("opt((node_space0.take(), equals_sign))", "opt((repeat(0.., unicode_space).map(|()| ()).take(), equals_sign))")]},
  acc([("a b=1", True), ("a b =1", True), ("a b /* c */ = 1", True), ("a b \\\\\\n = 1", True)]))

S("c04-exp-int", "C04", "a number with an exponent but no fraction and an upper-case E",
  "only a lower-case e makes a number with an exponent a float",
  {VPF: [('                Caseless("e"),\n', '                Caseless("e").verify(|s: &str| s == "e"),\n')]},
  """
fn main() {
    for text in ["1e5", "1E5", "1.0E5", "-1E-5"] {
        let e = kdl::KdlEntry::parse(text).unwrap();
        assert!(matches!(e.value(), kdl::KdlValue::Float(_)), "{text}");
    }
}
""")


S("c04-frac-underscore", "C04", "a decimal with an underscore directly after the point's first digit group",
  "digit groups after the point no longer take underscores, so such numbers are not floats",
  {VPF: [('''                integer_digits,
                '.',
                cut_err(
                    integer_digits
''', '''                integer_digits,
                '.',
                cut_err(
                    digit1
''')]},
  """
fn main() {
    for text in ["1.5", "1.5_0", "1_0.2_5"] {
        let e = kdl::KdlEntry::parse(text).unwrap();
        assert!(matches!(e.value(), kdl::KdlValue::Float(_)), "{text}");
    }
}
""")



RV = '''
fn main() {
    for v in [VALUES] {
        let mut node = kdl::KdlNode::new("n");
        node.push(kdl::KdlEntry::new(v.clone()));
        let mut doc = kdl::KdlDocument::new();
        doc.nodes_mut().push(node);
        let text = doc.to_string();
        let back = kdl::KdlDocument::parse_v2(&text).unwrap_or_else(|e| panic!("{text:?}: {e:?}"));
        assert_eq!(back.nodes()[0].entries()[0].value(), &v, "{text:?}");
    }
}
'''


def rv(*vs):
    return RV.replace("VALUES", ", ".join("kdl::KdlValue::from(%s)" % v for v in vs))


S("c05-dot-digit", "C05", "a string that is a dot followed by a digit",
  "strings like .5 are written without quotes, which is no valid text",
  {"src/value.rs": [("matches!(c, '.' | '-' | '+')", "matches!(c, '-' | '+')")]}, rv('".a"', '".5"', '"-5"'))
S("c05-big-float", "C05", "an integral float of 1e16 or more that {:?} writes with an exponent",
  "large integral floats are written out in digits only, which reads as an integer",
  {"src/value.rs": [('format!("{:?}", *value)', 'if value.abs() < 1e16 {\n                        format!("{:?}", *value)\n                    } else {\n                        format!("{value}")\n                    }')]},
  rv("1.0f64", "1e-7f64", "1e20f64"))
S("c05-space-ident", "C05", "a string with white space beyond ASCII",
  "white space other than the ASCII blank no longer forces quotes when a string is written",
  {VPF: [("        || UNICODE_SPACES.iter().any(|us| us == &c)\n", "        || (c.is_ascii() && UNICODE_SPACES.iter().any(|us| us == &c))\n")]},
  rv('"a b"', '"a\\u{2003}b"'))
S("c05-nan-word", "C05", "the string nan",
  "the word nan is written without quotes, which is no valid text",
  {"src/value.rs": [('        && ident != "nan"\n', '')]}, rv('"nan"', '"inf"', '"true"'))


LSPF = "tools/kdl-lsp/src/main.rs"
LSPDEMO = r'''#!/bin/bash
# builds the language server in the current directory into a scratch folder and talks to it
set -u
d=$(mktemp -d)
trap 'find "$d" -depth -delete' EXIT
cp -r "$PWD/Cargo.toml" "$PWD/src" "$PWD/tools" "$d/"
for x in Cargo.lock README.md examples benches; do [ -e "$PWD/$x" ] && cp -r "$PWD/$x" "$d/"; done
cd "$d" && cargo build --offline -q -p kdl-lsp --target-dir "$d/target" || exit 99
cat > "$d/client.py" <<'E'
import json, subprocess, sys
p = subprocess.Popen([sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
n = 0
def send(m):
    b = json.dumps(dict(m, jsonrpc="2.0")).encode()
    p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b); p.stdin.flush()
def recv():
    size = 0
    while True:
        l = p.stdout.readline()
        if not l: raise SystemExit("the server ended")
        if l == b"\r\n": break
        if l.lower().startswith(b"content-length:"): size = int(l.split(b":")[1])
    return json.loads(p.stdout.read(size))
def ask(method, params):
    global n
    n += 1
    send({"id": n, "method": method, "params": params})
    while True:
        m = recv()
        if m.get("id") == n and "method" not in m: return m["result"]
def tell(method, params): send({"method": method, "params": params})
def open_(u, t): tell("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "kdl", "version": 1, "text": t}})
def change(u, *ts): tell("textDocument/didChange", {"textDocument": {"uri": u, "version": 2}, "contentChanges": [{"text": t} for t in ts]})
def save(u, t): tell("textDocument/didSave", dict({"textDocument": {"uri": u}}, **({"text": t} if t is not None else {})))
def close(u): tell("textDocument/didClose", {"textDocument": {"uri": u}})
def diags(u): return ask("textDocument/diagnostic", {"textDocument": {"uri": u}})["items"]
A, B = "file:///a.kdl", "file:///b.kdl"
GOOD, BAD = "node 1\n", "node @\u0001 {{{\n"
caps = ask("initialize", {"capabilities": {}})
tell("initialized", {})
@BODY@
p.kill()
E
python3 "$d/client.py" "$d/target/debug/kdl-lsp"
'''


def lsp(id, prop, needs, breaks, edits, body):
    S(id, prop, needs, breaks, {LSPF: edits}, demo=LSPDEMO.replace("@BODY@", body.strip()))


BASIC = """
open_(A, GOOD); assert diags(A) == []
open_(A, BAD); assert diags(A) != []
"""
lsp("c20-save-close", "C20", "a save notification after the document was opened in another window and changed",
    "a save stores the text only when the document is not known yet, so edits arriving with a save are ignored",
    [("""        let rope = ropey::Rope::from_str(text);
        self.document_map.insert(uri.to_string(), rope.clone());
""", """        let rope = ropey::Rope::from_str(text);
        if text.is_empty() && self.document_map.contains_key(&uri.to_string()) {
            return;
        }
        self.document_map.insert(uri.to_string(), rope.clone());
""")], """
open_(A, BAD); assert diags(A) != []
change(A, GOOD); assert diags(A) == []
change(A, BAD); change(A, ""); assert diags(A) == [], diags(A)
""")
lsp("c20-key-path", "C20", "two documents whose URIs differ only in scheme or authority",
    "the store is keyed by the path of a URI when a document is closed, so closing one leaves it in the store",
    [("""            .remove(&params.text_document.uri.to_string());""", """            .remove(params.text_document.uri.path());""")], """
open_(A, BAD); assert diags(A) != []
close(A); assert diags(A) == [], "closed"
""")
lsp("c20-open-keeps", "C20", "a document opened again with another text, without being closed",
    "opening a document keeps the text that was stored for it before",
    [("""        self.document_map.insert(uri.to_string(), rope.clone());
""", """        self.document_map.entry(uri.to_string()).or_insert(rope.clone()).clone_from(&rope);
        if text.len() > 1 << 12 {
            self.document_map.remove(&uri.to_string());
        }
""")], """
open_(A, BAD); assert diags(A) != []
change(A, "// " + "x" * 5000 + "\\n" + BAD); assert diags(A) != []
""")
lsp("c21-char-column", "C21", "a character outside the BMP earlier on the line of an error",
    "columns count characters instead of UTF-16 units",
    [("""    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
""", """    let col_idx = rope.byte_to_char(byte_idx) - rope.line_to_char(line_idx);
""")], """
open_(A, 'n a b\\nnode "\\u00e9" @\\u0001\\n'); d1 = diags(A)
open_(A, 'n a b\\nnode "\\U0001F600" @\\u0001\\n'); d2 = diags(A)
assert [x["range"]["start"]["character"] + 1 for x in d1] == [x["range"]["start"]["character"] for x in d2], (d1, d2)
""")
lsp("c21-end-line", "C21", "a diagnostic whose span covers more than one line",
    "the end of a range is taken on the line where it starts",
    [("byte_to_position(diag.span.offset() + diag.span.len(), &doc),", "{\n                                    let start = byte_to_position(diag.span.offset(), &doc);\n                                    let end = byte_to_position(diag.span.offset() + diag.span.len(), &doc);\n                                    if end.line > start.line {\n                                        Position::new(start.line, start.character + diag.span.len() as u32)\n                                    } else {\n                                        end\n                                    }\n                                },")], """
open_(A, 'node {\\n  abc\\n  b\\n'); d = diags(A)
assert [x["range"]["end"] for x in d if x["range"]["start"]["line"] != x["range"]["end"]["line"]] == [{"line": 3, "character": 0}], d
""")
lsp("c22-dedup", "C22", "a document with two errors on the same line",
    "only the first of several diagnostics that start on one line is reported",
    [("""                    .collect();
                return""", """                    .fold(Vec::new(), |mut out: Vec<Diagnostic>, d| {
                        if !out.iter().any(|o| o.range.start.line == d.range.start.line) {
                            out.push(d);
                        }
                        out
                    });
                return""")], """
open_(A, 'node 1a 2b\\n'); two = diags(A)
assert len(two) == 2, two
""")
lsp("c22-warning", "C22", "a diagnostic with an empty span (a property without a value)",
    "errors are reported to the editor as warnings when their span is empty",
    [("""                            diag.severity().map(to_lsp_sev),
""", """                            diag.severity().map(|s| {
                                if diag.span.is_empty() {
                                    DiagnosticSeverity::WARNING
                                } else {
                                    to_lsp_sev(s)
                                }
                            }),
""")], """
bad = ["a=@ b=[ ]\\n", "node 1a 2b\\n", "n (\\nb) {\\n"]
for t in bad:
    open_(A, t)
    assert diags(A)
    for x in diags(A): assert x["severity"] == 1, (t, x)
""")

T = """use serde::Deserialize;
use serde::de::{Deserializer, Visitor, SeqAccess, MapAccess};
#[derive(Debug, PartialEq)]
enum J { Unit, Bool(bool), Int(i128), Float(f64), Str(String), Seq(Vec<J>), Map(Vec<(String, J)>) }
struct JV;
impl<'de> Visitor<'de> for JV {
    type Value = J;
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("anything") }
    fn visit_unit<E>(self) -> Result<J, E> { Ok(J::Unit) }
    fn visit_bool<E>(self, v: bool) -> Result<J, E> { Ok(J::Bool(v)) }
    fn visit_i64<E>(self, v: i64) -> Result<J, E> { Ok(J::Int(v as i128)) }
    fn visit_u64<E>(self, v: u64) -> Result<J, E> { Ok(J::Int(v as i128)) }
    fn visit_i128<E>(self, v: i128) -> Result<J, E> { Ok(J::Int(v)) }
    fn visit_f64<E>(self, v: f64) -> Result<J, E> { Ok(J::Float(v)) }
    fn visit_str<E>(self, v: &str) -> Result<J, E> { Ok(J::Str(v.into())) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? { v.push(x); }
        Ok(J::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_entry()? { v.push(x); }
        Ok(J::Map(v))
    }
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> { d.deserialize_any(JV) }
}
#[allow(dead_code)]
fn one(src: &str) -> J {
    let J::Map(mut m) = kdl::de::from_str::<J>(src).unwrap() else { panic!() };
    m.remove(0).1
}
"""

S("c18-int-low", "C18", "an integer below i64::MIN",
  "integers below i64::MIN are handed over truncated to 64 bits",
  {"src/de.rs": [("""                if let Ok(i) = i64::try_from(*n) {
                    self.annotate(visitor.visit_i64(i))
""", """                if *n <= i64::MAX as i128 {
                    self.annotate(visitor.visit_i64(*n as i64))
""")]}, T + """
fn main() {
    assert_eq!(one("a 5"), J::Int(5));
    assert_eq!(one("a -9223372036854775809"), J::Int(-9223372036854775809));
}
""", features=["serde"], deps=SERDE)

S("c18-scalar-block", "C18", "a node with one argument and an empty children block",
  "a node with one argument and an empty children block is read as the argument, not as a map",
  {"src/de.rs": [("""        args.len() == 1 && props.is_empty() && self.node.children().is_none()
""", """        args.len() == 1
            && props.is_empty()
            && self.node.children().is_none_or(|c| c.nodes().is_empty())
""")]}, T + """
fn main() {
    assert_eq!(one("a 5"), J::Int(5));
    assert!(matches!(one("a 5 {}"), J::Map(_)));
}
""", features=["serde"], deps=SERDE)

S("c18-enum-mixed", "C18", "an enum read from a node with a property and an argument",
  "a node with one property and arguments is read as the variant named by the property, not by the node",
  {"src/de.rs": [("""        if props.len() == 1 && self.args().is_empty() && self.node.children().is_none() {
            let prop""", """        if props.len() == 1 && self.node.children().is_none() {
            let prop""")]}, T + """
#[derive(Deserialize, Debug, PartialEq)]
#[serde(rename_all = "lowercase")]
enum E { Circle(J), Radius(J) }
fn main() {
    let m: std::collections::BTreeMap<String, E> = kdl::de::from_str("circle 1 radius=2").unwrap();
    assert!(matches!(m["circle"], E::Circle(J::Map(_))), "{m:?}");
}
""", features=["serde"], deps=SERDE)

S("c18-args-null", "C18", "null among several arguments read as a sequence",
  "null arguments are skipped in sequences",
  {"src/de.rs": [("""        self.iter
            .next()
            .map(|e| seed""", """        self.iter
            .find(|e| !matches!(e.value(), KdlValue::Null))
            .map(|e| seed""")]}, T + """
fn main() {
    assert_eq!(one("a 1 #null 3"), J::Seq(vec![J::Int(1), J::Unit, J::Int(3)]));
}
""", features=["serde"], deps=SERDE)

S("c18-option-block", "C18", "an option read from a node that has only an empty children block",
  "a node with an empty children block is none",
  {"src/de.rs": [("""        self.node.entries().is_empty() && self.node.children().is_none()
    }
}

impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {""", """        self.node.entries().is_empty() && self.node.iter_children().next().is_none()
    }
}

impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {""")]}, T + """
fn main() {
    let m: std::collections::BTreeMap<String, Option<Vec<u8>>> = kdl::de::from_str("a {}\nb").unwrap();
    assert_eq!(m["a"], Some(vec![]));
    assert_eq!(m["b"], None);
}
""", features=["serde"], deps=SERDE)

S("c18-child-variant", "C18", "an enum read from a node whose only child holds a lone string argument, with a tuple variant",
  "a tuple variant read from a node with a children block gets the arguments",
  {"src/de.rs": [("""        if !args.is_empty() && self.node.children().is_none() {
            // Arguments""", """        if !args.is_empty() {
            // Arguments""")]}, T + """
#[derive(Deserialize, Debug, PartialEq)]
struct N(i32, i32);
fn main() {
    let m: std::collections::BTreeMap<String, N> = kdl::de::from_str("a 9 8 {\n b 1\n c 2\n}").unwrap();
    assert_eq!(m["a"], N(1, 2));
}
""", features=["serde"], deps=SERDE)
