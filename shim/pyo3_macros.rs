//! Minimal stand-in for pyo3's procedural macros: `#[pyfunction]`, `#[pymodule]`.
//!
//! Parsed by hand over `proc_macro::TokenStream` (no `syn`), because the real
//! pyo3 cannot be fetched offline.  It covers free functions, which is all the
//! crate under test uses.
extern crate proc_macro;
use proc_macro::{Delimiter, TokenStream, TokenTree};

struct Arg {
    name: String,
    ty: String,
    default: Option<String>,
}

struct Func {
    other_attrs: String,
    doc: String,
    name: String,
    py_name: Option<String>,
    text_signature: Option<String>,
    signature: Option<TokenStream>,
    args: Vec<Arg>,
    item: TokenStream,
    vis: String,
}

fn tts(s: TokenStream) -> Vec<TokenTree> {
    s.into_iter().collect()
}

fn join(ts: &[TokenTree]) -> String {
    let s: TokenStream = ts.iter().cloned().collect();
    s.to_string()
}

/// Split at top-level commas, angle brackets counted (`->` is skipped).
fn split_commas(ts: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    let mut depth = 0i32;
    let mut prev_dash = false;
    for t in ts {
        if let TokenTree::Punct(p) = t {
            match p.as_char() {
                '<' => depth += 1,
                '>' if !prev_dash => depth -= 1,
                ',' if depth == 0 => {
                    if !cur.is_empty() {
                        out.push(std::mem::take(&mut cur));
                    }
                    prev_dash = false;
                    continue;
                }
                _ => {}
            }
            prev_dash = p.as_char() == '-';
        } else {
            prev_dash = false;
        }
        cur.push(t.clone());
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn unquote(lit: &str) -> String {
    // String literals only; handles r"", r#""# and simple escapes.
    let l = lit.trim();
    if let Some(rest) = l.strip_prefix('r') {
        let h = rest.chars().take_while(|c| *c == '#').count();
        return rest[h + 1..rest.len() - h - 1].to_string();
    }
    let inner = &l[1..l.len() - 1];
    let mut out = String::new();
    let mut it = inner.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('\n') => {
                while it.peek().is_some_and(|c| c.is_whitespace()) {
                    it.next();
                }
            }
            Some('u') => {
                it.next();
                let mut hex = String::new();
                for c in it.by_ref() {
                    if c == '}' {
                        break;
                    }
                    hex.push(c);
                }
                out.push(char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).unwrap());
            }
            Some(o) => out.push(o),
            None => {}
        }
    }
    out
}

fn apply_pyo3_opts(f: &mut Func, opts: TokenStream) {
    for opt in split_commas(&tts(opts)) {
        let key = opt[0].to_string();
        match key.as_str() {
            "name" => f.py_name = Some(unquote(&join(&opt[2..]))),
            "text_signature" => {
                let v = join(&opt[2..]);
                f.text_signature = if v == "None" { None } else { Some(unquote(&v)) };
            }
            "signature" => {
                if let TokenTree::Group(g) = &opt[2] {
                    f.signature = Some(g.stream());
                }
            }
            _ => {}
        }
    }
}

fn parse(attr: TokenStream, item: TokenStream) -> Func {
    let ts = tts(item);
    let mut f = Func {
        other_attrs: String::new(),
        doc: String::new(),
        name: String::new(),
        py_name: None,
        text_signature: None,
        signature: None,
        args: vec![],
        item: TokenStream::new(),
        vis: String::new(),
    };
    apply_pyo3_opts(&mut f, attr);
    let mut kept: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < ts.len() {
        if let TokenTree::Punct(p) = &ts[i] {
            if p.as_char() == '#' {
                if let TokenTree::Group(g) = &ts[i + 1] {
                    let inner = tts(g.stream());
                    let key = inner[0].to_string();
                    if key == "pyo3" {
                        if let TokenTree::Group(o) = &inner[1] {
                            apply_pyo3_opts(&mut f, o.stream());
                        }
                        i += 2;
                        continue;
                    }
                    if key == "doc" && inner.len() >= 3 {
                        let line = unquote(&inner[2].to_string());
                        f.doc.push_str(line.strip_prefix(' ').unwrap_or(&line));
                        f.doc.push('\n');
                    } else {
                        f.other_attrs.push_str(&format!("#{g}\n"));
                    }
                    kept.push(ts[i].clone());
                    kept.push(ts[i + 1].clone());
                    i += 2;
                    continue;
                }
            }
        }
        break;
    }
    let rest = &ts[i..];
    kept.extend(rest.iter().cloned());
    let fnpos = rest
        .iter()
        .position(|t| matches!(t, TokenTree::Ident(id) if id.to_string() == "fn"))
        .expect("#[pyfunction] on a non-function");
    f.vis = join(&rest[..fnpos]);
    f.name = rest[fnpos + 1].to_string();
    let params = rest[fnpos + 2..]
        .iter()
        .find_map(|t| match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g.clone()),
            _ => None,
        })
        .expect("no parameter list");
    for a in split_commas(&tts(params.stream())) {
        // pattern `:` type
        let mut a = a;
        while matches!(&a[0], TokenTree::Punct(p) if p.as_char() == '#') {
            a.drain(..2);
        }
        let colon = a
            .iter()
            .position(|t| matches!(t, TokenTree::Punct(p) if p.as_char() == ':'))
            .expect("no `:` in a parameter");
        let name = a[..colon].last().unwrap().to_string();
        f.args.push(Arg {
            name,
            ty: join(&a[colon + 1..]),
            default: None,
        });
    }
    if let Some(sig) = f.signature.clone() {
        for s in split_commas(&tts(sig)) {
            let name = s[0].to_string();
            if s.len() > 2 {
                let d = join(&s[2..]);
                for a in f.args.iter_mut() {
                    if a.name == name {
                        a.default = Some(d.clone());
                    }
                }
            }
        }
    }
    f.item = kept.into_iter().collect();
    f
}

fn is_python(ty: &str) -> bool {
    let t: String = ty.chars().filter(|c| !c.is_whitespace()).collect();
    t.starts_with("Python") || t.starts_with("pyo3::Python") || t.starts_with("::pyo3::Python")
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let name = &f.name;
    let py_name = f.py_name.clone().unwrap_or_else(|| name.trim_start_matches("r#").into());
    let pyargs: Vec<&Arg> = f.args.iter().filter(|a| !is_python(&a.ty)).collect();
    let sig = f.text_signature.clone().unwrap_or_else(|| {
        let parts: Vec<String> = pyargs
            .iter()
            .map(|a| match &a.default {
                Some(_) => format!("{}=...", a.name),
                None => a.name.clone(),
            })
            .collect();
        format!("({})", parts.join(", "))
    });
    let doc = format!("{py_name}{sig}\n--\n\n{}", f.doc.trim_end());
    let names: Vec<String> = pyargs.iter().map(|a| format!("{:?}", a.name)).collect();
    let mut call = vec![];
    let mut k = 0;
    for a in &f.args {
        if is_python(&a.ty) {
            call.push("py".to_string());
            continue;
        }
        match &a.default {
            Some(d) => call.push(format!(
                "match slots[{k}].as_ref() {{ Some(v) => ::pyo3::impl_::extract_argument(v, {:?})?, None => {d} }}",
                a.name
            )),
            None => call.push(format!(
                "::pyo3::impl_::extract_argument(::pyo3::impl_::required(&slots, {k}, {:?}, &NAMES, {:?})?, {:?})?",
                py_name, a.name, a.name
            )),
        }
        k += 1;
    }
    let n = pyargs.len();
    let wrapper = format!(
        r##"
        #[doc(hidden)] #[allow(non_snake_case, dead_code, unused, clippy::all)]
        fn __pyfunction_{name}<'py>(py: ::pyo3::Python<'py>, args: ::pyo3::impl_::RawArgs) -> ::pyo3::PyResult<*mut ::pyo3::ffi::PyObject> {{
            const NAMES: [&str; {n}] = [{names}];
            let slots = args.bind::<{n}>(py, {py_name:?}, &NAMES)?;
            ::pyo3::impl_::CallbackOut::into_raw({name}({call}), py)
        }}
        #[doc(hidden)] #[allow(non_snake_case, dead_code, unused, clippy::all)]
        unsafe extern "C" fn __pyfunction_raw_{name}(_m: *mut ::pyo3::ffi::PyObject, args: *const *mut ::pyo3::ffi::PyObject, nargs: isize, kw: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {{
            ::pyo3::impl_::trampoline(args, nargs, kw, |py, raw| __pyfunction_{name}(py, raw))
        }}
        #[doc(hidden)] #[allow(non_snake_case, dead_code, unused, clippy::all)]
        {vis} mod {name} {{
            pub const _PYO3_DEF: ::pyo3::impl_::Def = ::pyo3::impl_::Def {{
                name: {py_name:?}, doc: {doc:?}, raw: super::__pyfunction_raw_{name},
            }};
        }}
        "##,
        names = names.join(", "),
        call = call.join(", "),
        vis = f.vis,
    );
    let w: TokenStream = wrapper.parse().expect("generated wrapper parses");
    let mut out = f.item;
    out.extend(w);
    out
}

#[proc_macro_attribute]
pub fn pymodule(attr: TokenStream, item: TokenStream) -> TokenStream {
    let f = parse(attr, item);
    let name = &f.name;
    let py_name = f.py_name.clone().unwrap_or_else(|| name.clone());
    let mut call = vec![];
    for a in &f.args {
        call.push(if is_python(&a.ty) { "py" } else { "module" });
    }
    let w: TokenStream = format!(
        r##"
        #[doc(hidden)] #[allow(non_snake_case, clippy::all)]
        #[unsafe(no_mangle)] pub unsafe extern "C" fn PyInit_{py_name}() -> *mut ::pyo3::ffi::PyObject {{
            ::pyo3::impl_::init_module({py_name:?}, {doc:?}, |py, module| {{ let _ = py; {name}({call}) }})
        }}
        "##,
        doc = f.doc.trim_end(),
        call = call.join(", ")
    )
    .parse()
    .expect("generated module init parses");
    let mut out = f.item;
    out.extend(w);
    out
}
