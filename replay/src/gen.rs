//! Operations on the code generators: entities and schemas in, generated text (or its syntax tree, parsed by syn) out.
use crate::{hex, unhex};
use roxmltree::{Document, Namespace};
use std::str::FromStr;
use xsd_parser::generator::{builder::GeneratorBuilder, default as gd, Generator};
use xsd_parser::parser::{parse, types as pt, xsd_elements as xe};

/// "-" no namespace, "d<URI>" default namespace, "p<PREFIX> <URI>" prefixed
fn ns_doc(s: &str) -> Option<String> {
    let esc = |u: &str| u.chars().map(|c| format!("&#{};", c as u32)).collect::<String>();
    match s.chars().next()? {
        '-' => None,
        'd' => Some(format!("<x xmlns=\"{}\"/>", esc(&s[1..]))),
        _ => {
            let (p, u) = s[1..].split_once(' ').unwrap();
            Some(format!("<x xmlns:{}=\"{}\"/>", p, esc(u)))
        }
    }
}
fn with_gen<R>(tns: &str, xsd: &str, f: impl FnOnce(&Generator) -> R) -> R {
    let (a, b) = (ns_doc(tns), ns_doc(xsd));
    let (da, db) = (a.as_ref().map(|t| Document::parse(t).expect("ns")), b.as_ref().map(|t| Document::parse(t).expect("ns")));
    let pick = |d: &Option<Document>| -> Option<(Option<String>, String)> {
        d.as_ref().map(|d| { let n = d.root_element().namespaces().next().unwrap(); (n.name().map(|s| s.to_string()), n.uri().to_string()) })
    };
    let _ = pick;
    let na: Option<Namespace> = da.as_ref().map(|d| d.root_element().namespaces().next().unwrap().clone());
    let nb: Option<Namespace> = db.as_ref().map(|d| d.root_element().namespaces().next().unwrap().clone());
    let g = GeneratorBuilder::default().build();
    *g.target_ns.borrow_mut() = na;
    *g.xsd_ns.borrow_mut() = nb;
    f(&g)
}

enum V { S(String), L(Vec<V>) }
impl V {
    fn parse(s: &mut &str) -> V {
        if let Some(r) = s.strip_prefix('(') {
            *s = r;
            let mut v = vec![];
            while !s.starts_with(')') { v.push(V::parse(s)); }
            *s = &s[1..];
            V::L(v)
        } else {
            let k = s.find(';').unwrap();
            let r = unhex(&s[1..k]);
            *s = &s[k + 1..];
            V::S(r)
        }
    }
    fn s(&self) -> String { match self { V::S(s) => s.clone(), _ => panic!("string expected") } }
    fn l(&self) -> &[V] { match self { V::L(l) => l, _ => panic!("list expected") } }
    fn o(&self) -> Option<String> { match self { V::S(s) => Some(s.clone()), V::L(_) => None } }
}
fn mods(s: &str) -> Vec<pt::TypeModifier> {
    s.chars().map(|c| match c {
        'N' => pt::TypeModifier::None, 'A' => pt::TypeModifier::Array, 'O' => pt::TypeModifier::Option,
        'R' => pt::TypeModifier::Recursive, _ => pt::TypeModifier::Empty }).collect()
}
fn facet(k: &str, v: String) -> xe::FacetType {
    use xe::FacetType::*;
    match k {
        "Enumeration" => Enumeration(v), "FractionDigits" => FractionDigits(v), "Length" => Length(v), "MaxExclusive" => MaxExclusive(v),
        "MaxInclusive" => MaxInclusive(v), "MaxLength" => MaxLength(v), "MinExclusive" => MinExclusive(v), "MinInclusive" => MinInclusive(v),
        "MinLength" => MinLength(v), "Pattern" => Pattern(v), "TotalDigits" => TotalDigits(v), _ => WhiteSpace(xe::WhiteSpace::Collapse),
    }
}
fn esrc(s: &str) -> pt::EnumSource {
    match s { "C" => pt::EnumSource::Choice, "R" => pt::EnumSource::Restriction, _ => pt::EnumSource::Union }
}
fn field(v: &V) -> pt::StructField {
    let l = v.l();
    pt::StructField { name: l[0].s(), type_name: l[1].s(),
        source: match l[2].s().as_str() { "A" => pt::StructFieldSource::Attribute, "E" => pt::StructFieldSource::Element, "B" => pt::StructFieldSource::Base,
            "C" => pt::StructFieldSource::Choice, _ => pt::StructFieldSource::NA },
        type_modifiers: mods(&l[3].s()), comment: l[4].o(), subtypes: vec![] }
}
fn case(v: &V) -> pt::EnumCase {
    let l = v.l();
    pt::EnumCase { name: l[0].s(), type_name: l[1].o(), source: esrc(&l[2].s()), type_modifiers: mods(&l[3].s()), comment: l[4].o(), value: String::new() }
}
fn entity(kind: &str, v: &V) -> pt::RsEntity {
    let l = v.l();
    match kind {
        "field" => pt::RsEntity::StructField(field(v)),
        "case" => pt::RsEntity::EnumCase(case(v)),
        "alias" => pt::RsEntity::Alias(pt::Alias { name: l[0].s(), original: l[1].s(), comment: l[2].o(), subtypes: vec![] }),
        "import" => pt::RsEntity::Import(pt::Import { name: l[0].s(), location: l[1].s(), comment: None }),
        "tuple" => pt::RsEntity::TupleStruct(pt::TupleStruct { name: l[0].s(), type_name: l[1].s(), type_modifiers: mods(&l[2].s()), comment: l[3].o(),
            facets: l[4].l().iter().map(|f| pt::Facet { facet_type: facet(&f.l()[0].s(), f.l()[1].s()), comment: None }).collect(), ..Default::default() }),
        "struct" => pt::RsEntity::Struct(pt::Struct { name: l[0].s(), comment: l[1].o(), fields: std::cell::RefCell::new(l[2].l().iter().map(field).collect()), ..Default::default() }),
        _ => pt::RsEntity::Enum(pt::Enum { name: l[0].s(), type_name: l[1].s(), source: esrc(&l[2].s()), comment: l[3].o(), cases: l[4].l().iter().map(case).collect(), ..Default::default() }),
    }
}

fn code(xsd: &str) -> String {
    let f = parse(xsd).expect("parse");
    GeneratorBuilder::default().build().generate_rs_file(&f)
}

fn wsdl(text: &str) -> String {
    let doc = Document::parse(text).expect("wsdl");
    let d = wsdl_parser::parser::definitions::Definitions::new(&doc.root_element());
    wsdl_parser::generator::generate(&d)
}

// ------------------------------------------------------------------ syntax trees
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}
fn arr(v: Vec<String>) -> String { format!("[{}]", v.join(",")) }
fn ts<T: quote::ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    s
}
fn ty(t: &syn::Type) -> String { js(&ts(t).replace(' ', "")) }
fn attrs(a: &[syn::Attribute]) -> String {
    let mut ya = vec![];
    let mut der = vec![];
    let mut other = vec![];
    for x in a {
        if x.path().is_ident("yaserde") {
            if let syn::Meta::List(l) = &x.meta {
                let r = l.parse_nested_meta(|m| {
                    let k = ts(&m.path).replace(' ', "");
                    let v = if m.input.peek(syn::Token![=]) { let s: syn::LitStr = m.value()?.parse()?; js(&s.value()) } else { "true".into() };
                    ya.push(format!("[{},{}]", js(&k), v));
                    Ok(())
                });
                if let Err(e) = r { ya.push(format!("[{},{}]", js("!error"), js(&e.to_string()))); }
            }
        } else if x.path().is_ident("derive") {
            if let syn::Meta::List(l) = &x.meta {
                let _ = l.parse_nested_meta(|m| { der.push(js(&ts(&m.path))); Ok(()) });
            }
        } else { other.push(js(&ts(x))); }
    }
    format!("\"ya\":{},\"der\":{},\"other\":{}", arr(ya), arr(der), arr(other))
}
fn fields(f: &syn::Fields) -> String {
    arr(f.iter().map(|f| format!("{{\"n\":{},\"t\":{},\"vis\":{},{}}}", f.ident.as_ref().map(|i| js(&i.to_string())).unwrap_or("null".into()), ty(&f.ty), js(&ts(&f.vis)), attrs(&f.attrs))).collect())
}
fn item(i: &syn::Item) -> String {
    match i {
        syn::Item::Struct(s) => format!("{{\"k\":{},\"n\":{},\"vis\":{},\"f\":{},{}}}", js(match s.fields { syn::Fields::Named(_) => "struct", syn::Fields::Unnamed(_) => "tuple", _ => "unit" }),
            js(&s.ident.to_string()), js(&ts(&s.vis)), fields(&s.fields), attrs(&s.attrs)),
        syn::Item::Enum(e) => format!("{{\"k\":\"enum\",\"n\":{},\"vis\":{},{},\"v\":{}}}", js(&e.ident.to_string()), js(&ts(&e.vis)), attrs(&e.attrs),
            arr(e.variants.iter().map(|v| format!("{{\"n\":{},\"f\":{},{}}}", js(&v.ident.to_string()), fields(&v.fields), attrs(&v.attrs))).collect())),
        syn::Item::Mod(m) => format!("{{\"k\":\"mod\",\"n\":{},\"vis\":{},\"i\":{}}}", js(&m.ident.to_string()), js(&ts(&m.vis)), items(m.content.as_ref().map(|c| &c.1[..]).unwrap_or(&[]))),
        syn::Item::Impl(m) => format!("{{\"k\":\"impl\",\"tr\":{},\"t\":{},\"body\":{}}}", m.trait_.as_ref().map(|t| js(&ts(&t.1))).unwrap_or("null".into()), ty(&m.self_ty), arr(m.items.iter().map(|i| js(&ts(i))).collect())),
        syn::Item::Type(t) => format!("{{\"k\":\"type\",\"n\":{},\"t\":{}}}", js(&t.ident.to_string()), ty(&t.ty)),
        syn::Item::Use(u) => format!("{{\"k\":\"use\",\"t\":{}}}", js(&ts(&u.tree).replace(' ', ""))),
        syn::Item::Fn(f) => format!("{{\"k\":\"fn\",\"n\":{},\"vis\":{},\"async\":{},\"gen\":{},\"in\":{},\"out\":{},\"body\":{}}}", js(&f.sig.ident.to_string()), js(&ts(&f.vis)), f.sig.asyncness.is_some(),
            js(&ts(&f.sig.generics)), arr(f.sig.inputs.iter().map(|a| js(&ts(a).replace(' ', ""))).collect()), js(&ts(&f.sig.output).replace(' ', "")), js(&ts(&f.block))),
        o => format!("{{\"k\":\"other\",\"t\":{}}}", js(&ts(o))),
    }
}
fn items(i: &[syn::Item]) -> String { arr(i.iter().map(item).collect()) }
fn ast(c: &str) -> Option<String> { syn::parse_file(c).ok().map(|f| items(&f.items)) }

// ------------------------------------------------------------------ derive macros on instances
// (name of the instance, input) -> the outcome of the instance and those of the inner type itself; "!" stands for an error
macro_rules! item { (Vec<$e:ty>) => { $e }; ($e:ty) => { $e } }
macro_rules! words { ($t:ident Vec<$e:ty>) => { $t.split_whitespace().collect::<Vec<_>>() }; ($t:ident $e:ty) => { vec![$t] } }
macro_rules! dispatch { ($($m:ident [$($t:tt)*]),*) => {
    pub fn tuple(n: &str, t: &str) -> Option<String> { match n { $(stringify!($m) => {
        let mut o = super::outcome::<$m::T>(t);
        for w in words!(t $($t)*) { o += "\t"; o += &super::shown(w.parse::<item!($($t)*)>().ok()); }
        Some(o)
    })* _ => None } }
    pub fn serde(n: &str, t: &str, w: &str) -> Option<String> { match n { $(stringify!($m) => Some(format!("{}\t{}", super::serde::<$m::T>(t), super::outcome::<$m::T>(w))),)* _ => None } }
} }
macro_rules! dispatch_union { ($($m:ident { $($v:ident[$($t:tt)*]),* })*) => {
    pub fn serde_union(n: &str, t: &str, w: &str) -> Option<String> { match n { $(stringify!($m) => {
        let mut o = super::serde::<$m::T>(t);
        $(o += &match w.parse::<$($t)*>() { Ok(x) => format!("\t{}\t{}", super::hex(&x.to_string()), super::hex(&format!("{:?}", $m::T::$v(x)))), Err(_) => "\t!\t!".into() };)*
        o += &format!("\t{}", super::hex(&format!("{:?}", $m::T::__Unknown__(w.to_string()))));
        Some(o)
    })* _ => None } }
} }
#[path = "inst.rs"]
pub mod inst;
fn shown<T: std::fmt::Display>(v: Option<T>) -> String { v.map_or("!".into(), |x| hex(&x.to_string())) }
/// text and Debug text of what the text is read as, and whether the printed text reads as an equal value
fn outcome<T: std::str::FromStr + std::fmt::Display + std::fmt::Debug + PartialEq>(t: &str) -> String {
    match T::from_str(t) {
        Ok(v) => format!("{}\t{}\t{}", hex(&v.to_string()), hex(&format!("{:?}", v)), match T::from_str(&v.to_string()) { Ok(w) => if w == v { "same" } else { "differs" }, Err(_) => "!" }),
        Err(_) => "!\t!\t!".into(),
    }
}
fn serde<T: yaserde::YaSerialize + yaserde::YaDeserialize + std::fmt::Debug>(t: &str) -> String {
    match yaserde::de::from_str::<T>(t) {
        Ok(v) => format!("{}\t{}", hex(&format!("{:?}", v)), yaserde::ser::to_string(&v).map_or("!".into(), |x| hex(&x))),
        Err(_) => "!\t!".into(),
    }
}

pub fn run(op: &str, a: &[&str]) -> Option<Option<String>> {
    let s = |k: usize| unhex(a[k]);
    let o = |k: usize| if a[k] == "~" { None } else { Some(unhex(a[k])) };
    Some(match op {
        "tyname" => Some(hex(&with_gen(&s(1), &s(2), |g| { let x = g.base().format_type_name(&s(0), g).into_owned(); x }))),
        "fname" => Some(hex(&with_gen("-", "-", |g| g.base().format_name(&s(0)).into_owned()))),
        "mname" => Some(hex(&with_gen("-", "-", |g| g.base().mod_name(&s(0))))),
        "comment" => Some(hex(&gd::default_format_comment(o(0).as_deref(), a[1].parse().unwrap(), a[2].parse().unwrap()))),
        "modify" => Some(hex(&gd::default_modify_type(&s(0), &mods(&s(1))))),
        "ent" => { let t = s(1); let v = V::parse(&mut t.as_str()); Some(hex(&with_gen(&s(2), &s(3), |g| g.generate(&entity(&s(0), &v))))) }
        "gen" => Some(hex(&code(&s(0)))),
        "gen2" => { // the same generator object used for two files, and a fresh one for the second
            let (t1, t2) = (s(0), s(1));
            let (f1, f2) = (parse(&t1).expect("parse"), parse(&t2).expect("parse"));
            let g = GeneratorBuilder::default().build();
            let a = g.generate_rs_file(&f1);
            let b = g.generate_rs_file(&f2);
            Some(format!("{}\t{}", hex(&a), hex(&b)))
        }
        "gen3" => { // like gen2, with namespaces left out of the second file (t: target, x: XSD); then a fresh generator
            let (t1, t2) = (s(0), s(1));
            let (f1, mut f2) = (parse(&t1).expect("parse"), parse(&t2).expect("parse"));
            if s(2).contains('t') { f2.target_ns = None; }
            if s(2).contains('x') { f2.xsd_ns = None; }
            let g = GeneratorBuilder::default().build();
            g.generate_rs_file(&f1);
            Some(format!("{}\t{}", hex(&g.generate_rs_file(&f2)), hex(&GeneratorBuilder::default().build().generate_rs_file(&f2))))
        }
        "again" => { // one parsed file: by the same generator twice, then by a fresh one
            let t = s(0);
            let f = parse(&t).expect("parse");
            let g = GeneratorBuilder::default().build();
            let a = g.generate_rs_file(&f);
            let b = g.generate_rs_file(&f);
            let c = GeneratorBuilder::default().build().generate_rs_file(&f);
            Some(format!("{}\t{}\t{}", hex(&a), hex(&b), hex(&c)))
        }
        "parts" => { // the text of every top-level entity of a schema, on its own
            let t = s(0);
            let f = parse(&t).expect("parse");
            let g = GeneratorBuilder::default().build();
            *g.target_ns.borrow_mut() = f.target_ns.clone();
            *g.xsd_ns.borrow_mut() = f.xsd_ns.clone();
            Some(hex(&f.types.iter().map(|e| hex(&g.generate(e))).collect::<Vec<_>>().join(" ")))
        }
        "ast" => { let c = code(&s(0)); ast(&c).map(|j| format!("{}\t{}", hex(&j), hex(&c))) }
        "rsast" => ast(&s(0)).map(|j| hex(&j)),
        "wsdl" => Some(hex(&wsdl(&s(0)))),
        "wsdlast" => ast(&wsdl(&s(0))).map(|j| hex(&j)),
        "tuple" => inst::tuple(&s(0), &s(1)),
        // a list of the given items (any texts, the empty one too): printed and written
        "vitems" => {
            let w: Vec<String> = (1..a.len()).map(|k| s(k)).collect();
            fn two<T: std::fmt::Display + yaserde::YaSerialize>(v: T) -> Option<String> { Some(format!("{}\t{}", hex(&v.to_string()), yaserde::ser::to_string(&v).map_or("!".into(), |x| hex(&x)))) }
            if s(0) == "v_str" { two(inst::v_str::T(w)) } else { two(inst::v_nest2::T(w.into_iter().map(inst::w_str::T).collect())) }
        }
        // read an XML document into the type, report the value, write it back; then the same for the text by itself
        "serde" => inst::serde(&s(0), &s(1), &s(2)).or_else(|| inst::serde_union(&s(0), &s(1), &s(2))),
        _ => return None,
    })
}
