//! The attributes of pyo3 for the checks in /verif: what they stand on stays as it is, without the attributes that
//! only Python sees and with methods that anyone may call.  A `signature` becomes functions that give the default
//! values, `NAME__ARGUMENT() -> Option<TYPE>`; a class gets its name, a module its function `NAME__module`.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

const PYTHON: &[&str] = &["pyo3", "new", "getter", "setter", "staticmethod", "classmethod", "classattr", "args"];

type Tokens = Vec<TokenTree>;

fn first(g: &Group) -> String {
    g.stream().into_iter().next().map(|t| t.to_string()).unwrap_or_default()
}

fn is(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

/// the attribute at `i`
fn attribute(t: &[TokenTree], i: usize) -> Option<&Group> {
    match (t.get(i), t.get(i + 1)) {
        (a, Some(TokenTree::Group(g))) if is(a, '#') && g.delimiter() == Delimiter::Bracket => Some(g),
        _ => None,
    }
}

/// at the commas that are in no group and in no `<...>`
fn split(t: TokenStream) -> Vec<Tokens> {
    let (mut r, mut depth, mut last) = (vec![vec![]], 0, ' ');
    for x in t {
        if let TokenTree::Punct(p) = &x {
            match p.as_char() {
                '<' => depth += 1,
                '>' if last != '-' => depth -= 1,
                ',' if depth == 0 => {
                    r.push(vec![]);
                    last = ',';
                    continue;
                },
                _ => (),
            }
            last = p.as_char();
        } else {
            last = ' ';
        }
        r.last_mut().unwrap().push(x);
    }
    r.retain(|x| !x.is_empty());
    r
}

/// NAME of `signature = (...)` in the attribute `pyo3(...)`, also of the arguments of `pyfunction` itself
fn signature(inner: TokenStream) -> Option<Vec<(String, Option<String>)>> {
    for part in split(inner) {
        let [TokenTree::Ident(n), e, TokenTree::Group(g)] = &part[..] else { continue };
        if n.to_string() == "signature" && is(Some(e), '=') {
            return Some(
                split(g.stream())
                    .into_iter()
                    .map(|a| {
                        let value = match a.get(1) {
                            e if is(e, '=') => Some(a[2..].iter().cloned().collect::<TokenStream>().to_string()),
                            _ => None,
                        };
                        (a[0].to_string(), value)
                    })
                    .collect(),
            );
        }
    }
    None
}

/// functions for the default values
fn defaults(name: &str, params: &Group, sig: &Option<Vec<(String, Option<String>)>>) -> String {
    let mut r = String::new();
    for p in split(params.stream()) {
        let text = |t: &[TokenTree]| t.iter().cloned().collect::<TokenStream>().to_string();
        let Some(colon) = p.iter().position(|t| is(Some(t), ':')) else { continue };
        let (arg, ty) = (text(&p[..colon]), text(&p[colon + 1..]));
        if ty.contains('&') || ty.contains("Python") || ty.contains("impl") {
            continue;
        }
        let arg = arg.trim_start_matches("mut ").trim().to_string();
        let value = match sig {
            Some(s) => s.iter().find(|x| x.0 == arg).and_then(|x| x.1.clone()),
            None => None,
        };
        let value = value.map(|v| format!("Some({v})")).unwrap_or("None".into());
        r += &format!("#[allow(non_snake_case, dead_code, unused)] pub fn {name}__{arg}() -> Option<{ty}> {{ {value} }}\n");
    }
    r
}

/// without what only Python sees; the functions public, and with what gives their default values
fn items(t: TokenStream, public: bool, found: Option<Vec<(String, Option<String>)>>) -> TokenStream {
    let t: Tokens = t.into_iter().collect();
    let (mut r, mut i, mut sig, mut start) = (Tokens::new(), 0, found, true);
    while i < t.len() {
        if let Some(g) = attribute(&t, i) {
            if PYTHON.contains(&first(g).as_str()) {
                if let (true, Some(TokenTree::Group(a))) = (first(g) == "pyo3", g.stream().into_iter().nth(1)) {
                    sig = signature(a.stream()).or(sig);
                }
            } else {
                r.push(t[i].clone());
                r.push(t[i + 1].clone());
            }
            i += 2;
            continue;
        }
        if start {
            if public && ["fn", "async", "unsafe", "const", "extern"].contains(&t[i].to_string().as_str()) {
                r.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
            }
            start = false;
        }
        let mut end = false;
        if t[i].to_string() == "fn" {
            let params = t[i..].iter().find_map(|x| match x {
                TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g),
                _ => None,
            });
            if let Some(g) = params {
                let d = defaults(&t[i + 1].to_string(), g, &sig);
                // up to the body
                while i < t.len() {
                    r.push(t[i].clone());
                    i += 1;
                    if matches!(r.last(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace) {
                        break;
                    }
                }
                r.extend(d.parse::<TokenStream>().unwrap());
                (sig, start) = (None, true);
                continue;
            }
        } else if is(Some(&t[i]), ';') {
            end = true;
        }
        r.push(t[i].clone());
        i += 1;
        start |= end;
    }
    r.into_iter().collect()
}

/// the attribute's own name for what it stands on
fn named(attr: &TokenStream) -> Option<String> {
    split(attr.clone()).into_iter().find_map(|p| match &p[..] {
        [n, e, TokenTree::Literal(l)] if n.to_string() == "name" && is(Some(e), '=') => Some(l.to_string()),
        _ => None,
    })
}

/// the same, with the last group in braces replaced
fn body(item: TokenStream, f: impl Fn(TokenStream) -> TokenStream) -> TokenStream {
    let mut t: Tokens = item.into_iter().collect();
    for x in t.iter_mut().rev() {
        if let TokenTree::Group(g) = x {
            if g.delimiter() == Delimiter::Brace {
                *x = TokenTree::Group(Group::new(Delimiter::Brace, f(g.stream())));
                break;
            }
        }
    }
    t.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let t: Tokens = item.clone().into_iter().collect();
    let k = t.iter().position(|x| ["struct", "enum"].contains(&x.to_string().as_str())).unwrap();
    let name = t[k + 1].to_string();
    let shown = named(&attr).unwrap_or(format!("{name:?}"));
    let mut r = body(item, |b| items(b, false, None));
    r.extend(
        format!("impl pyo3::PyClass for {name} {{ const NAME: &'static str = {shown}; }}")
            .parse::<TokenStream>()
            .unwrap(),
    );
    r
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    body(item, |b| items(b, true, None))
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    items(item, false, signature(attr))
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let t: Tokens = item.clone().into_iter().collect();
    let k = t.iter().position(|x| x.to_string() == "fn").unwrap();
    let name = t[k + 1].to_string();
    let mut r = items(item, false, None);
    r.extend(
        format!(
            "#[allow(non_snake_case)] pub fn {name}__module() -> pyo3::PyResult<&'static pyo3::types::PyModule> {{ let \
             m = pyo3::types::PyModule::new(pyo3::Python::any(), stringify!({name}))?; \
             {name}(pyo3::Python::any(), m)?; Ok(m) }}"
        )
        .parse::<TokenStream>()
        .unwrap(),
    );
    r
}
