//! vx: mechanical extraction of functions and items of /repo into a Verus file.
//!
//!   vx REPO CONTRACT.vc OUT.rs OUT.json [--reach] [--skip "FILE SELECTOR"]...
//!
//! A contract file is Verus text in which lines starting with `//@` are directives
//! (see DESIGN.md, "Extraction").  The text of every extracted function is taken from
//! /repo's current source; the tool only inserts contract text, drops attributes and
//! doc comments, normalises visibility, flattens `crate::..` paths, and applies the
//! `rewrite`s the contract file lists (all of them are reported in OUT.json).
//! Exit code 3: an anchor (file, item, function, loop, ...) is missing.
use quote::ToTokens;
use proc_macro2::Span;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

thread_local! { static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn lost(msg: String) -> ! {
    eprintln!("LOST-ANCHOR: {}", msg);
    CURRENT.with(|c| if !c.borrow().is_empty() { eprintln!("LOST-FN: {}", c.borrow()) });
    std::process::exit(3)
}

struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

fn r(s: Span) -> std::ops::Range<usize> {
    s.byte_range()
}

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn ty_str<T: quote::ToTokens>(t: &T) -> String {
    norm(&t.to_token_stream().to_string())
}

// ---------------------------------------------------------------- directives
#[derive(Default, Clone, Debug)]
struct FnDir {
    file: String,
    sel: String,
    ret: Option<String>,
    spec: String,
    loops: BTreeMap<usize, (Option<String>, String)>,
    anchors: Vec<(String, String)>,
    closures: BTreeMap<usize, (Vec<String>, Option<String>, String)>,
    rewrites: Vec<(String, String)>,
    attrs: Vec<String>,
    rename: Option<String>,
    novis: bool,
    reach: bool,
    body_dropped: bool,
    bare: bool,
    bytes: bool,
    fmt: bool,
    cut_fns: bool,
    sig: Option<String>,
    lifts: Vec<(String, String)>,
}

enum Piece {
    Text(String),
    Fn(FnDir),
    ImplOpen { file: String, sel: String },
    ImplClose,
    Item { file: String, kind: String, name: String, derives: String, rewrites: Vec<(String, String)> },
    Macros { file: String, names: Vec<String> },
}

fn unquote(s: &str) -> String {
    let s = s.trim();
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s);
    s.replace("\\n", "\n").replace("\\\"", "\"")
}

fn split_rewrite(s: &str) -> (String, String) {
    let i = s.find("\" => \"").unwrap_or_else(|| panic!("bad rewrite {}", s));
    (unquote(&s[..i + 1]), unquote(&s[i + 5..]))
}

fn parse_contract(src: &str, dir: &std::path::Path) -> Vec<Piece> {
    let mut out: Vec<Piece> = vec![];
    let mut text = String::new();
    let mut cur: Option<FnDir> = None;
    // where following plain lines go inside a fn block
    #[derive(Clone)]
    enum Sec {
        Spec,
        Loop(usize),
        Anchor,
        Closure(usize),
    }
    let mut sec = Sec::Spec;
    for line in src.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            if let Some(f) = cur.as_mut() {
                match cmd {
                    "ret" => f.ret = Some(rest.to_string()),
                    "spec" => sec = Sec::Spec,
                    "attr" => f.attrs.push(rest.to_string()),
                    "rename" => f.rename = Some(rest.to_string()),
                    "novis" => f.novis = true,
                    "noreach" => f.reach = false,
                    "bare" => f.bare = true,
                    "bytes" => f.bytes = true,
                    "fmt" => f.fmt = true,
                    "cut-fns" => f.cut_fns = true,
                    "sig" => f.sig = Some(unquote(rest)),
                    "lift" => {
                        let (n, a) = rest.split_once(' ').unwrap_or((rest, ""));
                        f.lifts.push((n.to_string(), unquote(a)));
                    }
                    "drop-body" => f.body_dropped = true,
                    "rewrite" => f.rewrites.push(split_rewrite(rest)),
                    "loop" => {
                        let mut p = rest.split_whitespace();
                        let k: usize = p.next().unwrap().parse().unwrap();
                        let mut it = None;
                        for q in p {
                            if let Some(n) = q.strip_prefix("it=") {
                                it = Some(n.to_string())
                            }
                        }
                        f.loops.insert(k, (it, String::new()));
                        sec = Sec::Loop(k);
                    }
                    "closure" => {
                        // closure K types="T1;T2" ret="y: U"
                        let (k, opts) = rest.split_once(' ').unwrap_or((rest, ""));
                        let k: usize = k.parse().unwrap();
                        let get = |key: &str| -> Option<String> {
                            let pat = format!("{}=\"", key);
                            opts.find(&pat).map(|i| {
                                let s = &opts[i + pat.len()..];
                                s[..s.find('"').unwrap()].to_string()
                            })
                        };
                        let types = get("types").filter(|s| !s.trim().is_empty()).map(|s| s.split(';').map(|x| x.trim().to_string()).collect()).unwrap_or_default();
                        f.closures.insert(k, (types, get("ret"), String::new()));
                        sec = Sec::Closure(k);
                    }
                    "at" => {
                        f.anchors.push((rest.to_string(), String::new()));
                        sec = Sec::Anchor;
                    }
                    "end" => {
                        out.push(Piece::Fn(cur.take().unwrap()));
                    }
                    _ => panic!("unknown directive in fn block: {}", d),
                }
                continue;
            }
            if !text.is_empty() {
                out.push(Piece::Text(std::mem::take(&mut text)));
            }
            match cmd {
                "fn" => {
                    let (file, sel) = rest.split_once(' ').unwrap();
                    cur = Some(FnDir { file: file.into(), sel: sel.trim().into(), reach: true, ..Default::default() });
                    sec = Sec::Spec;
                }
                "impl" => {
                    let (file, sel) = rest.split_once(' ').unwrap();
                    out.push(Piece::ImplOpen { file: file.into(), sel: sel.trim().into() });
                }
                "endimpl" => out.push(Piece::ImplClose),
                "item" => {
                    let p: Vec<&str> = rest.splitn(4, ' ').collect();
                    let derives = p.get(3).map(|s| s.trim().to_string()).unwrap_or_default();
                    out.push(Piece::Item { file: p[0].into(), kind: p[1].into(), name: p[2].into(), derives, rewrites: vec![] });
                }
                "item-rewrite" => match out.last_mut() {
                    Some(Piece::Item { rewrites, .. }) => rewrites.push(split_rewrite(rest)),
                    _ => panic!("item-rewrite without item"),
                },
                "macros" => {
                    let mut p = rest.split_whitespace();
                    let file = p.next().unwrap().to_string();
                    out.push(Piece::Macros { file, names: p.map(|s| s.to_string()).collect() });
                }
                "include" => {
                    // include FILE [KEY=VALUE ...]: `{{KEY}}` in the included text stands for VALUE
                    let mut p = rest.split_whitespace();
                    let name = p.next().unwrap();
                    let mut t = std::fs::read_to_string(dir.join(name)).unwrap_or_else(|_| panic!("include {}", rest));
                    for kv in p {
                        let (k, v) = kv.split_once('=').unwrap();
                        t = t.replace(&format!("{{{{{}}}}}", k), v);
                    }
                    out.extend(parse_contract(&t, dir));
                }
                "#" => {}
                _ => panic!("unknown directive: {}", d),
            }
            continue;
        }
        if let Some(f) = cur.as_mut() {
            let dst = match &sec {
                Sec::Spec => &mut f.spec,
                Sec::Loop(k) => &mut f.loops.get_mut(k).unwrap().1,
                Sec::Anchor => &mut f.anchors.last_mut().unwrap().1,
                Sec::Closure(k) => &mut f.closures.get_mut(k).unwrap().2,
            };
            dst.push_str(line);
            dst.push('\n');
        } else {
            text.push_str(line);
            text.push('\n');
        }
    }
    if cur.is_some() {
        panic!("unterminated fn block");
    }
    if !text.is_empty() {
        out.push(Piece::Text(text));
    }
    out
}

// ---------------------------------------------------------------- source access
struct Src {
    text: String,
    ast: syn::File,
}

struct Repo {
    root: String,
    files: BTreeMap<String, Src>,
}

impl Repo {
    fn get(&mut self, f: &str) -> &Src {
        if !self.files.contains_key(f) {
            let text = std::fs::read_to_string(format!("{}/{}", self.root, f)).unwrap_or_else(|_| lost(format!("file {}", f)));
            let ast = syn::parse_file(&text).unwrap_or_else(|e| lost(format!("cannot parse {}: {}", f, e)));
            self.files.insert(f.to_string(), Src { text, ast });
        }
        &self.files[f]
    }
}

enum Found<'a> {
    Closure(&'a syn::ExprClosure, &'a syn::Block),
    Free(&'a syn::ItemFn),
    Method(&'a syn::ItemImpl, &'a syn::ImplItemFn),
    TraitFn(&'a syn::TraitItemFn),
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        if let syn::Item::Mod(m) = i {
            let test = m.attrs.iter().any(|a| ty_str(a).contains("cfg(test)"));
            if !test {
                if let Some((_, its)) = &m.content {
                    all_items(its, out);
                }
            }
            continue;
        }
        out.push(i);
    }
}

fn strip_lifetimes(s: &str) -> String {
    // "impl<'a>X<'a>" comparisons: drop lifetimes
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            let mut k = i;
            while k < b.len() && b[k].is_whitespace() {
                k += 1;
            }
            if k < b.len() && b[k] == ',' {
                i = k + 1;
            }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    norm(&o).replace("<>", "")
}

fn impl_key(im: &syn::ItemImpl) -> String {
    let st = strip_lifetimes(&im.self_ty.to_token_stream().to_string());
    match &im.trait_ {
        Some((_, p, _)) => format!("<{}as{}>", st, strip_lifetimes(&p.to_token_stream().to_string())),
        None => st,
    }
}

fn tail_key(s: &str) -> String {
    // reduce paths a::b::C to C inside a key
    let toks: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut word = String::new();
    let mut i = 0;
    while i < toks.len() {
        let c = toks[i];
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else if c == ':' && i + 1 < toks.len() && toks[i + 1] == ':' {
            word.clear();
            i += 1;
        } else {
            o.push_str(&word);
            word.clear();
            o.push(c);
        }
        i += 1;
    }
    o.push_str(&word);
    o
}

fn sel_split(sel: &str) -> (Option<String>, String) {
    let s = sel.replace(" as ", "\u{1}").replace('\u{1}', "as");
    if let Some(i) = s.rfind("::") {
        (Some(strip_lifetimes(&s[..i])), norm(&s[i + 2..]))
    } else {
        (None, norm(&s))
    }
}

fn lifted<'a>(s: &'a syn::Stmt, name: &str) -> Option<&'a syn::ExprClosure> {
    if let syn::Stmt::Local(l) = s {
        if let (syn::Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let (true, syn::Expr::Closure(c)) = (i.ident == name, &*init.expr) {
                return Some(c);
            }
        }
    }
    None
}

fn find_fn<'a>(src: &'a Src, sel: &str) -> Option<Found<'a>> {
    // `outer / inner`: a function declared inside a function
    if let Some((outer, inner)) = sel.split_once(" / ") {
        let b: &syn::Block = match find_fn(src, outer)? {
            Found::Free(f) => &f.block,
            Found::Method(_, m) => &m.block,
            Found::TraitFn(m) => m.default.as_ref()?,
            Found::Closure(_, b) => b,
        };
        if let Some(name) = inner.trim().strip_prefix("let ") {
            // a closure bound to a variable
            let l = b.stmts.iter().find_map(|s| lifted(s, name))?;
            return match &*l.body {
                syn::Expr::Block(b) => Some(Found::Closure(l, &b.block)),
                _ => None,
            };
        }
        for s in &b.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
                if f.sig.ident == inner.trim() {
                    return Some(Found::Free(f));
                }
            }
        }
        return None;
    }
    let (own, name) = sel_split(sel);
    let mut items = vec![];
    all_items(&src.ast.items, &mut items);
    // a written path that matches exactly comes before one that matches by its last segments
    let exact = |im: &syn::ItemImpl, o: &str| impl_key(im) == o;
    let any_exact = own.as_ref().is_some_and(|o| {
        items.iter().any(|it| matches!(it, syn::Item::Impl(im) if exact(im, o) && im.items.iter().any(|x| matches!(x, syn::ImplItem::Fn(m) if m.sig.ident == name))))
    });
    for it in items {
        match (&own, it) {
            (None, syn::Item::Fn(f)) if f.sig.ident == name => return Some(Found::Free(f)),
            (Some(o), syn::Item::Impl(im)) => {
                if (any_exact && exact(im, o)) || (!any_exact && tail_key(&impl_key(im)) == tail_key(o)) {
                    for x in &im.items {
                        if let syn::ImplItem::Fn(m) = x {
                            if m.sig.ident == name {
                                return Some(Found::Method(im, m));
                            }
                        }
                    }
                }
            }
            (Some(o), syn::Item::Trait(t)) if t.ident == o.as_str() => {
                for x in &t.items {
                    if let syn::TraitItem::Fn(m) = x {
                        if m.sig.ident == name {
                            return Some(Found::TraitFn(m));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

// ---------------------------------------------------------------- visitor
#[derive(Default)]
struct Scan<'a> {
    loops: Vec<LoopInfo>,
    closures: Vec<&'a syn::ExprClosure>,
    attrs: Vec<Span>,
    paths: Vec<(usize, usize, &'static str)>, // ranges to delete (crate:: prefixes)
    calls: Vec<(String, usize)>,
    stmts: Vec<(usize, usize)>, // all statements (any depth), ranges
}

struct LoopInfo {
    kind: &'static str,
    expr: Option<usize>,
    body: (usize, usize),
    whole: (usize, usize),
}

impl<'a> Visit<'a> for Scan<'a> {
    fn visit_attribute(&mut self, a: &'a syn::Attribute) {
        self.attrs.push(a.span());
    }
    fn visit_stmt(&mut self, s: &'a syn::Stmt) {
        let g = r(s.span());
        self.stmts.push((g.start, g.end));
        visit::visit_stmt(self, s);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.loops.push(LoopInfo {
            kind: "for",
            expr: Some(r(l.expr.span()).start),
            body: (r(l.body.span()).start, r(l.body.span()).end),
            whole: (r(l.span()).start, r(l.span()).end),
        });
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        let kind = if matches!(*l.cond, syn::Expr::Let(_)) { "while-let" } else { "while" };
        self.loops.push(LoopInfo { kind, expr: None, body: (r(l.body.span()).start, r(l.body.span()).end), whole: (r(l.span()).start, r(l.span()).end) });
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.loops.push(LoopInfo { kind: "loop", expr: None, body: (r(l.body.span()).start, r(l.body.span()).end), whole: (r(l.span()).start, r(l.span()).end) });
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        self.closures.push(c);
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, c);
        self.calls.push((c.method.to_string(), r(c.method.span()).start));
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let n = segs.len();
            let name = if n >= 2 && segs[n - 2].chars().next().unwrap().is_uppercase() { format!("{}::{}", segs[n - 2], segs[n - 1]) } else { segs[n - 1].clone() };
            self.calls.push((name, r(c.span()).start));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_path(&mut self, p: &'a syn::Path) {
        let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
        if first == "crate" || first == "super" {
            let mut i = 0;
            let n = p.segments.len();
            while i + 1 < n {
                let id = p.segments[i].ident.to_string();
                if i > 0 && id.chars().next().unwrap().is_uppercase() {
                    break;
                }
                i += 1;
            }
            let s = r(p.segments[0].span()).start;
            let e = r(p.segments[i].ident.span()).start;
            // `crate::Result<T>` is the crate's alias, not std's Result
            self.paths.push((s, e, if first == "crate" && n == 2 && p.segments[1].ident == "Result" { "Crate" } else { "" }));
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        self.calls.push((format!("{}!", name), r(m.span()).start));
        // crate:: prefix of paths inside macro tokens
        fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<(usize, usize, &'static str)>) {
            let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
            let mut i = 0;
            while i < v.len() {
                match &v[i] {
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                    proc_macro2::TokenTree::Ident(id) if *id == "crate" || *id == "super" => {
                        let s = id.span().byte_range().start;
                        let mut j = i + 1;
                        let mut e = id.span().byte_range().end;
                        loop {
                            let is_colon = |k: usize| matches!(v.get(k), Some(proc_macro2::TokenTree::Punct(p)) if p.as_char() == ':');
                            if is_colon(j) && is_colon(j + 1) {
                                if let Some(proc_macro2::TokenTree::Ident(n)) = v.get(j + 2) {
                                    e = n.span().byte_range().start;
                                    let ns = n.to_string();
                                    if ns.chars().next().unwrap().is_uppercase() {
                                        break;
                                    }
                                    j += 3;
                                    continue;
                                }
                            }
                            break;
                        }
                        out.push((s, e, ""));
                    }
                    _ => {}
                }
                i += 1;
            }
        }
        walk(m.tokens.clone(), &mut self.paths);
        visit::visit_macro(self, m);
    }
}

/// `bytes`: desugars what Verus does not know about byte strings. b"ab" becomes the array
/// reference &[97u8,98u8]; a match on byte strings and ==/!= with one become bytes_eq tests.
struct Bytes<'b>(&'b mut Ctx);
fn bytestr(l: &syn::LitByteStr) -> String {
    format!("&[{}]", l.value().iter().map(|b| format!("{}u8", b)).collect::<Vec<_>>().join(", "))
}
fn pat_bytes(p: &syn::Pat, out: &mut Vec<String>) -> bool {
    match p {
        syn::Pat::Lit(l) => {
            if let syn::Lit::ByteStr(b) = &l.lit {
                out.push(bytestr(b));
                return true;
            }
            false
        }
        syn::Pat::Or(o) => o.cases.iter().all(|c| pat_bytes(c, out)),
        _ => false,
    }
}
impl<'b, 'a> Visit<'a> for Bytes<'b> {
    fn visit_lit_byte_str(&mut self, l: &'a syn::LitByteStr) {
        let g = r(l.span());
        self.0.rep(g.start, g.end, bytestr(l));
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        let lit = |e: &syn::Expr| matches!(e, syn::Expr::Lit(l) if matches!(l.lit, syn::Lit::ByteStr(_)));
        if lit(&b.left) || lit(&b.right) {
            let (n, g) = match &b.op {
                syn::BinOp::Eq(t) => ("bytes_eq(", r(t.span())),
                syn::BinOp::Ne(t) => ("!bytes_eq(", r(t.span())),
                _ => return visit::visit_expr_binary(self, b),
            };
            self.0.ins(r(b.left.span()).start, n.into());
            self.0.rep(g.start, g.end, ",".into());
            visit::visit_expr(self, &b.left);
            visit::visit_expr(self, &b.right);
            self.0.ins(r(b.right.span()).end, ")".into());
            return;
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_match(&mut self, m: &'a syn::ExprMatch) {
        let any = m.arms.iter().any(|a| pat_bytes(&a.pat, &mut vec![]));
        if !any {
            return visit::visit_expr_match(self, m);
        }
        let n = m.arms.len();
        let g = r(m.match_token.span());
        self.0.rep(g.start, g.end, "({ let m__: &[u8] =".into());
        visit::visit_expr(self, &m.expr);
        let e = r(m.expr.span()).end;
        let first = r(m.arms[0].span()).start;
        self.0.rep(e, first, "; ".into());
        for (i, a) in m.arms.iter().enumerate() {
            let mut pats = vec![];
            let ps = r(a.pat.span()).start;
            let bs = r(a.body.span()).start;
            if pat_bytes(&a.pat, &mut pats) && a.guard.is_none() {
                let c: Vec<String> = pats.iter().map(|p| format!("bytes_eq(m__, {})", p)).collect();
                self.0.rep(ps, bs, format!("if {} {{ ", c.join(" || ")));
            } else if matches!(a.pat, syn::Pat::Wild(_)) && a.guard.is_none() && i == n - 1 {
                self.0.rep(ps, bs, "{ ".into());
            } else {
                lost("match on byte strings with an arm that is neither a literal nor a final `_`".into());
            }
            visit::visit_expr(self, &a.body);
            let be = r(a.body.span()).end;
            let next = if i + 1 < n { r(m.arms[i + 1].span()).start } else { r(m.span()).end };
            self.0.rep(be, next, if i + 1 < n { " } else ".into() } else { " } })".into() });
        }
    }
}

/// Verus has no `continue` in `for` loops: `if c { ..; continue; } rest` becomes
/// `if c { .. } else { rest }`, and a `continue` in tail position is dropped.
struct Continues<'b>(&'b mut Ctx, &'b str);
fn is_continue(s: &syn::Stmt) -> bool {
    matches!(s, syn::Stmt::Expr(syn::Expr::Continue(c), _) if c.label.is_none())
}
fn branches<'a>(i: &'a syn::ExprIf, out: &mut Vec<&'a syn::Block>) -> bool {
    out.push(&i.then_branch);
    match &i.else_branch {
        None => false,
        Some((_, e)) => match &**e {
            syn::Expr::If(j) => branches(j, out),
            syn::Expr::Block(b) => {
                out.push(&b.block);
                true
            }
            _ => true,
        },
    }
}
impl<'b> Continues<'b> {
    fn tail_expr(&mut self, e: &syn::Expr) {
        match e {
            syn::Expr::If(i) => {
                let mut bs = vec![];
                branches(i, &mut bs);
                bs.into_iter().for_each(|b| self.tail_block(b));
            }
            syn::Expr::Match(m) => m.arms.iter().for_each(|a| self.tail_expr(&a.body)),
            syn::Expr::Block(b) => self.tail_block(&b.block),
            syn::Expr::Continue(c) if c.label.is_none() => {
                let g = r(c.span());
                self.0.rep(g.start, g.end, "{}".into());
            }
            _ => {}
        }
    }
    fn tail_block(&mut self, b: &syn::Block) {
        let n = b.stmts.len();
        for (k, s) in b.stmts.iter().enumerate() {
            if k + 1 == n {
                if is_continue(s) {
                    let g = r(s.span());
                    self.0.rep(g.start, g.end, String::new());
                } else if let syn::Stmt::Expr(e, _) = s {
                    self.tail_expr(e);
                }
            } else if let syn::Stmt::Expr(syn::Expr::If(i), _) = s {
                let mut bs = vec![];
                let closed = branches(i, &mut bs);
                if !closed && bs.iter().all(|b| b.stmts.last().map_or(false, is_continue)) {
                    bs.into_iter().for_each(|b| self.tail_block(b));
                    self.0.ins(r(i.span()).end, " else {".into());
                    self.0.ins(r(b.span()).end - 1, "}".into());
                }
            } else if let syn::Stmt::Local(l) = s {
                // `let P = match E { Q => X, _ => continue }; rest` becomes `if let Q = E { let P = X; rest }`
                if let Some(syn::LocalInit { expr, diverge: None, .. }) = &l.init {
                    if let syn::Expr::Match(m) = &**expr {
                        let skip = |a: &syn::Arm| matches!(&*a.body, syn::Expr::Continue(c) if c.label.is_none());
                        if m.arms.len() > 1 && !skip(&m.arms[0]) && m.arms[0].guard.is_none() && m.arms[1..].iter().all(|a| skip(a)) {
                            let (p, a) = (r(l.pat.span()), &m.arms[0]);
                            let (pat, q, x) = (self.1[p.clone()].to_string(), self.1[r(a.pat.span())].to_string(), self.1[r(a.body.span())].to_string());
                            self.0.rep(r(l.span()).start, r(m.expr.span()).start, format!("if let {} = ", q));
                            self.0.rep(r(m.expr.span()).end, r(l.span()).end, format!(" {{ let {} = {};", pat, x));
                            self.0.ins(r(b.span()).end - 1, "}".into());
                        }
                    }
                }
            }
        }
    }
}
impl<'b, 'a> Visit<'a> for Continues<'b> {
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.tail_block(&l.body);
        visit::visit_expr_for_loop(self, l);
    }
}

/// `for (n, x) in E.enumerate() {..}` becomes a counted loop over E.
/// `for mut x in E {..}` becomes `for vx_x in E { let mut x = vx_x; ..}`.
struct Enumerates<'b>(&'b mut Ctx, usize, &'b str);
impl<'b, 'a> Visit<'a> for Enumerates<'b> {
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        if let syn::Pat::Ident(i) = &*l.pat {
            if i.mutability.is_some() && i.by_ref.is_none() {
                let p = r(i.span());
                self.0.rep(p.start, p.end, format!("vx_{}", i.ident));
                self.0.ins(r(l.body.span()).start + 1, format!(" let mut {} = vx_{};", i.ident, i.ident));
            }
        }
        if let (syn::Pat::Tuple(t), syn::Expr::MethodCall(c)) = (&*l.pat, &*l.expr) {
            if t.elems.len() == 2 && c.method == "enumerate" && c.args.is_empty() && matches!(t.elems[0], syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
                let v = format!("vx_n{}", self.1);
                self.1 += 1;
                let (a, b) = (r(t.elems[0].span()), r(t.elems[1].span()));
                let n = self.2[a.clone()].to_string();
                self.0.ins(r(l.span()).start, format!("let mut {}: usize = 0; ", v));
                self.0.rep(r(t.span()).start, b.start, String::new());
                self.0.rep(b.end, r(t.span()).end, String::new());
                self.0.rep(r(c.receiver.span()).end, r(c.span()).end, String::new());
                self.0.ins(r(l.body.span()).start + 1, format!(" let {} = {};", n, v));
                self.0.ins(r(l.body.span()).end - 1, format!("; {} = {} + 1;", v, v));
            }
        }
        visit::visit_expr_for_loop(self, l);
    }
}

/// `fmt`: write!(dst, "a{}b", x) becomes { dst.vx_put("a"); dst.vx_show(&x); dst.vx_put("b"); vx_fmt_ok() },
/// and format!(..) the same on a fresh String; {:02x} becomes vx_show_02x, and so on.
struct Fmt<'b>(&'b mut Ctx, &'b Src);
struct Args(Vec<syn::Expr>);
impl syn::parse::Parse for Args {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated(i)?;
        Ok(Args(p.into_iter().collect()))
    }
}
impl<'b, 'a> Visit<'a> for Fmt<'b> {
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if name != "write" && name != "format" {
            return;
        }
        let Ok(Args(args)) = syn::parse2::<Args>(m.tokens.clone()) else { return };
        let k = if name == "write" { 1 } else { 0 };
        let Some(syn::Expr::Lit(l)) = args.get(k) else { return };
        let syn::Lit::Str(l) = &l.lit else { return };
        let dst = if k == 1 {
            let t = &self.1.text[r(args[0].span())];
            t.trim_start_matches("&mut").trim().to_string()
        } else {
            "vx_s".to_string()
        };
        let mut rest = args[k + 1..].iter();
        let whole = r(m.span());
        let mut pos = whole.start;
        let mut pend = if k == 1 { "({ ".to_string() } else { "({ let mut vx_s = String::new(); ".to_string() };
        let text = l.value();
        let cs: Vec<char> = text.chars().collect();
        let mut lit = String::new();
        let mut i = 0;
        let flush = |lit: &mut String, pend: &mut String| {
            if !lit.is_empty() {
                let _ = write!(pend, "{}.vx_put({:?}); ", dst, lit);
                lit.clear();
            }
        };
        while i < cs.len() {
            if (cs[i] == '{' || cs[i] == '}') && cs.get(i + 1) == Some(&cs[i]) {
                lit.push(cs[i]);
                i += 2;
            } else if cs[i] == '{' {
                let e = (i..cs.len()).find(|j| cs[*j] == '}').unwrap();
                let inner: String = cs[i + 1..e].iter().collect();
                let (nm, spec) = inner.split_once(':').unwrap_or((&inner, ""));
                let mut meth = "vx_show".to_string();
                if !spec.is_empty() {
                    meth.push('_');
                    spec.chars().for_each(|c| match c {
                        '?' => meth.push_str("debug"),
                        c if c.is_alphanumeric() => meth.push(c),
                        _ => meth.push('_'),
                    });
                }
                flush(&mut lit, &mut pend);
                if nm.is_empty() {
                    let Some(a) = rest.next() else { lost(format!("format arguments of {:?}", text)) };
                    let g = r(a.span());
                    let wrap = matches!(a, syn::Expr::Cast(_) | syn::Expr::Binary(_));
                    let _ = write!(pend, "{}.{}(&{}", dst, meth, if wrap { "(" } else { "" });
                    self.0.rep(pos, g.start, std::mem::take(&mut pend));
                    pend.push_str(if wrap { ")); " } else { "); " });
                    pos = g.end;
                } else {
                    let _ = write!(pend, "{}.{}(&{}); ", dst, meth, nm);
                }
                i = e + 1;
            } else {
                lit.push(cs[i]);
                i += 1;
            }
        }
        flush(&mut lit, &mut pend);
        if rest.next().is_some() {
            lost(format!("format arguments of {:?}", text));
        }
        pend.push_str(if k == 1 { "vx_fmt_ok() })" } else { "vx_s })" });
        self.0.rep(pos, whole.end, pend);
    }
}

struct Ctx {
    edits: Vec<Edit>,
    seq: usize,
}
impl Ctx {
    fn ins(&mut self, at: usize, t: String) {
        self.rep(at, at, t)
    }
    fn rep(&mut self, s: usize, e: usize, t: String) {
        self.seq += 1;
        self.edits.push(Edit { start: s, end: e, text: t, seq: self.seq });
    }
}

fn apply(text: &str, range: std::ops::Range<usize>, mut edits: Vec<Edit>) -> String {
    edits.sort_by(|a, b| (a.start, a.end != a.start, a.seq).cmp(&(b.start, b.end != b.start, b.seq)));
    let mut o = String::new();
    let mut pos = range.start;
    for e in &edits {
        if e.start < pos {
            if e.end <= pos {
                continue; // nested inside an already deleted range
            }
            continue;
        }
        o.push_str(&text[pos..e.start]);
        o.push_str(&e.text);
        pos = e.end;
    }
    o.push_str(&text[pos..range.end]);
    o
}

/// `skip`: only the signature and the contract; the body is left out and the contract assumed.
fn emit_fn(src: &Src, d: &FnDir, in_trait_impl: bool, reach: bool, skip: bool, drops: &mut BTreeSet<String>) -> (String, Value) {
    let found = find_fn(src, &d.sel).unwrap_or_else(|| lost(format!("function {} in {}", d.sel, d.file)));
    let dummy: syn::Signature = syn::parse_str("fn f()").unwrap();
    let (sig, block, whole, vis): (&syn::Signature, &syn::Block, std::ops::Range<usize>, Option<&syn::Visibility>) = match &found {
        Found::Closure(_, b) => (&dummy, b, r(b.span()), None),
        Found::Free(f) => (&f.sig, &f.block, r(f.sig.span()).start..r(f.block.span()).end, Some(&f.vis)),
        Found::Method(_, m) => (&m.sig, &m.block, r(m.sig.span()).start..r(m.block.span()).end, Some(&m.vis)),
        Found::TraitFn(m) => {
            let b = m.default.as_ref().unwrap_or_else(|| lost(format!("{} has no body", d.sel)));
            (&m.sig, b, r(m.sig.span()).start..r(b.span()).end, None)
        }
    };
    let _ = vis;
    let mut sc = Scan::default();
    sc.visit_signature(sig);
    sc.visit_block(block);
    let mut cx = Ctx { edits: vec![], seq: 0 };
    if skip {
        let bstart = r(block.span()).start;
        let sigr = whole.start..bstart;
        for a in &sc.attrs {
            let g = r(*a);
            if g.end <= bstart {
                cx.rep(g.start, g.end, String::new());
            }
        }
        for (s, e, t) in &sc.paths {
            if *e <= bstart {
                cx.rep(*s, *e, t.to_string());
            }
        }
        if let Some(name) = &d.rename {
            let g = r(sig.ident.span());
            cx.rep(g.start, g.end, name.clone());
        }
        if let (Some(ret), syn::ReturnType::Type(_, t)) = (&d.ret, &sig.output) {
            let g = r(t.span());
            cx.ins(g.start, format!("({}: ", ret));
            cx.ins(g.end, ")".into());
        }
        for (a, b) in &d.rewrites {
            let head = &src.text[sigr.clone()];
            let mut from = 0;
            while let Some(i) = head[from..].find(a.as_str()) {
                let s = sigr.start + from + i;
                cx.rep(s, s + a.len(), b.clone());
                from += i + a.len();
            }
        }
        let mut o = String::from("#[verifier::external_body]\n");
        if !in_trait_impl && !d.novis {
            o.push_str("pub ");
        }
        o.push_str(&apply(&src.text, sigr, cx.edits));
        if let Some(s) = &d.sig {
            o.push_str(s);
        }
        let _ = write!(o, "\n{}\n{{ unimplemented!() }}\n", d.spec);
        return (o, json!({"skipped": true}));
    }
    for a in &sc.attrs {
        let g = r(*a);
        drops.insert("statement/parameter attributes".into());
        cx.rep(g.start, g.end, String::new());
    }
    for (s, e, t) in &sc.paths {
        cx.rep(*s, *e, t.to_string());
    }
    if d.cut_fns {
        // functions declared inside this one are extracted on their own
        for st in &block.stmts {
            if let syn::Stmt::Item(syn::Item::Fn(f)) = st {
                let g = r(f.span());
                cx.rep(g.start, g.end, String::new());
            }
        }
    }
    for (name, args) in &d.lifts {
        // the closure is extracted as a function of its own; what it captured becomes an argument
        let st = block.stmts.iter().find(|s| lifted(s, name).is_some()).unwrap_or_else(|| lost(format!("closure {} of {}", name, d.sel)));
        let g = r(st.span());
        cx.rep(g.start, g.end, String::new());
        struct Calls<'b>(&'b mut Ctx, &'b str, &'b str);
        impl<'b, 'a> Visit<'a> for Calls<'b> {
            fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
                if matches!(&*c.func, syn::Expr::Path(p) if p.path.is_ident(self.1)) {
                    let at = r(c.paren_token.span.open()).end;
                    self.0.ins(at, if c.args.is_empty() { self.2.to_string() } else { format!("{}, ", self.2) });
                }
                visit::visit_expr_call(self, c);
            }
        }
        Calls(&mut cx, name, args).visit_block(block);
    }
    Continues(&mut cx, &src.text).visit_block(block);
    Enumerates(&mut cx, 0, &src.text).visit_block(block);
    if d.fmt {
        Fmt(&mut cx, src).visit_block(block);
    }
    if d.bytes {
        Bytes(&mut cx).visit_block(block);
    }
    // const/async/unsafe are kept; inline etc. attributes sit outside the range
    if let Some(name) = &d.rename {
        let g = r(sig.ident.span());
        cx.rep(g.start, g.end, name.clone());
    }
    if let (Some(ret), syn::ReturnType::Type(_, t)) = (&d.ret, &sig.output) {
        let g = r(t.span());
        cx.ins(g.start, format!("({}: ", ret));
        // the insertion must come after the type text and before where-clause
        cx.ins(g.end, ")".into());
    }
    let bstart = r(block.span()).start;
    if let Some(s) = &d.sig {
        cx.ins(bstart, s.clone());
    }
    if !d.spec.trim().is_empty() {
        cx.ins(bstart, format!("\n{}", d.spec));
    }
    let reach_text = if reach && d.reach { "\n proof { assert(false); } /*REACH*/\n" } else { "\n" };
    // `hide(..)` must stay the first statement of the body
    let is_hide = |a: &str, t: &str| a.trim() == "start" && t.trim_start().starts_with("hide(");
    if !d.anchors.iter().any(|(a, t)| is_hide(a, t)) {
        cx.ins(bstart + 1, reach_text.to_string());
    }
    // loops
    for (k, (it, inv)) in &d.loops {
        let l = sc.loops.get(*k).unwrap_or_else(|| lost(format!("loop {} of {}", k, d.sel)));
        if let (Some(n), Some(e)) = (it, l.expr) {
            cx.ins(e, format!("{}: ", n));
        } else if it.is_some() {
            lost(format!("loop {} of {} is not a for loop", k, d.sel));
        }
        cx.ins(l.body.0, format!("\n{}", inv));
    }
    for (k, (types, ret, spec)) in &d.closures {
        let c = sc.closures.get(*k).unwrap_or_else(|| lost(format!("closure {} of {}", k, d.sel)));
        if !types.is_empty() && types.len() != c.inputs.len() {
            lost(format!("closure {} of {}: arity", k, d.sel));
        }
        // a pattern parameter becomes a variable, destructured at the start of the body
        let mut lets = String::new();
        for (i, (p, t)) in c.inputs.iter().zip(types.iter()).enumerate() {
            if t.is_empty() || t == "_" || matches!(p, syn::Pat::Type(_)) {
                continue;
            }
            if !matches!(p, syn::Pat::Ident(_) | syn::Pat::Wild(_)) {
                let g = r(p.span());
                let _ = write!(lets, "let {} = arg{}; ", &src.text[g.clone()], i);
                cx.rep(g.start, g.end, format!("arg{}: {}", i, t));
                continue;
            }
            cx.ins(r(p.span()).end, format!(": {}", t));
        }
        let bs = r(c.body.span());
        let isblock = lets.is_empty() && matches!(*c.body, syn::Expr::Block(_));
        if matches!(c.output, syn::ReturnType::Default) {
            if let Some(rt) = ret {
                cx.ins(bs.start, format!(" -> ({}) ", rt));
            }
        }
        cx.ins(bs.start, format!("\n{}", spec));
        if !isblock {
            cx.ins(bs.start, format!("{{ {}", lets));
            cx.ins(bs.end, " }".into());
        }
    }
    for (a, t) in &d.anchors {
        let p: Vec<&str> = a.split_whitespace().collect();
        match p.as_slice() {
            ["start"] if is_hide(a, t) => {
                let (h, rest) = t.split_once('\n').unwrap_or((&t, ""));
                cx.ins(bstart + 1, format!("\n{}{}\n{}", h, reach_text, rest));
            }
            ["start"] => cx.ins(bstart + 1, format!("\n{}", t)),
            ["end"] => cx.ins(r(block.span()).end - 1, format!("\n{}", t)),
            ["tail"] => match block.stmts.last() {
                Some(s) => cx.ins(r(s.span()).start, t.clone()),
                _ => lost(format!("tail of {}", d.sel)),
            },
            ["stmt", k] => {
                let k: usize = k.parse().unwrap();
                match block.stmts.get(k) {
                    Some(s) => cx.ins(r(s.span()).start, t.clone()),
                    None => lost(format!("stmt {} of {}", k, d.sel)),
                }
            }
            ["loop", k, pos] => {
                let k: usize = k.parse().unwrap();
                let l = sc.loops.get(k).unwrap_or_else(|| lost(format!("loop {} of {}", k, d.sel)));
                match *pos {
                    "start" => cx.ins(l.body.0 + 1, format!("\n{}", t)),
                    "end" => cx.ins(l.body.1 - 1, format!("\n{}", t)),
                    "before" => cx.ins(l.whole.0, t.clone()),
                    "after" => cx.ins(l.whole.1, format!("\n{}", t)),
                    _ => panic!("anchor {}", a),
                }
            }
            ["before-call", name] | ["after-call", name] => {
                let (nm, k) = match name.rsplit_once('#') {
                    Some((n, k)) => (n, k.parse::<usize>().unwrap()),
                    None => (*name, 0),
                };
                let mut hits: Vec<usize> = sc.calls.iter().filter(|c| c.0 == nm).map(|c| c.1).collect();
                hits.sort();
                let pos = *hits.get(k).unwrap_or_else(|| lost(format!("call {} of {}", name, d.sel)));
                // innermost statement containing pos
                let st = sc.stmts.iter().filter(|s| s.0 <= pos && pos < s.1).min_by_key(|s| s.1 - s.0).unwrap_or_else(|| lost(format!("stmt of call {} in {}", name, d.sel)));
                if p[0] == "before-call" {
                    cx.ins(st.0, t.clone());
                } else {
                    cx.ins(st.1, format!("\n{}", t));
                }
            }
            _ => panic!("unknown anchor {}", a),
        }
    }
    for (a, b) in &d.rewrites {
        let mut any = false;
        let body = &src.text[whole.clone()];
        let mut from = 0;
        while let Some(i) = body[from..].find(a.as_str()) {
            let s = whole.start + from + i;
            cx.rep(s, s + a.len(), b.clone());
            from += i + a.len();
            any = true;
        }
        if !any {
            lost(format!("rewrite target `{}` in {}", a, d.sel));
        }
    }
    let mut calls: BTreeSet<String> = sc.calls.iter().map(|c| c.0.clone()).collect();
    calls.remove("Ok");
    calls.remove("Err");
    calls.remove("Some");
    let skel = json!({"loops": sc.loops.iter().map(|l| l.kind).collect::<Vec<_>>(), "closures": sc.closures.len(), "calls": calls});
    let body = apply(&src.text, whole, cx.edits);
    let mut o = String::new();
    for a in &d.attrs {
        let _ = writeln!(o, "{}", a);
    }
    if !in_trait_impl && !d.novis {
        o.push_str("pub ");
    }
    o.push_str(&body);
    (o, skel)
}

fn emit_item(src: &Src, kind: &str, name: &str, derives: &str, rewrites: &[(String, String)]) -> String {
    let mut items = vec![];
    all_items(&src.ast.items, &mut items);
    // macro-wrapped items (pin_project!) are reparsed from their tokens
    let mut owned: Vec<syn::Item> = vec![];
    for it in &items {
        if let syn::Item::Macro(m) = it {
            if let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                owned.extend(f.items);
            }
        }
    }
    items.extend(owned.iter());
    for it in items {
        let (ok, span, attrs): (bool, Span, &Vec<syn::Attribute>) = match it {
            syn::Item::Struct(s) if kind == "struct" => (s.ident == name, s.span(), &s.attrs),
            syn::Item::Enum(s) if kind == "enum" => (s.ident == name, s.span(), &s.attrs),
            syn::Item::Const(s) if kind == "const" => (s.ident == name, s.span(), &s.attrs),
            syn::Item::Type(s) if kind == "type" => (s.ident == name, s.span(), &s.attrs),
            syn::Item::Static(s) if kind == "static" => (s.ident == name, s.span(), &s.attrs),
            _ => continue,
        };
        if !ok {
            continue;
        }
        let mut cx = Ctx { edits: vec![], seq: 0 };
        let mut sc = Scan::default();
        sc.visit_item(it);
        for a in &sc.attrs {
            let g = r(*a);
            cx.rep(g.start, g.end, String::new());
        }
        for (s, e, t) in &sc.paths {
            cx.rep(*s, *e, t.to_string());
        }
        let _ = attrs;
        let g = r(span);
        // visibility of the item and of named fields -> pub
        struct V<'b>(&'b mut Ctx);
        impl<'b, 'a> Visit<'a> for V<'b> {
            fn visit_visibility(&mut self, v: &'a syn::Visibility) {
                match v {
                    syn::Visibility::Inherited => {}
                    _ => {
                        let g = r(v.span());
                        self.0.rep(g.start, g.end, "pub".into());
                    }
                }
            }
            fn visit_field(&mut self, f: &'a syn::Field) {
                if matches!(f.vis, syn::Visibility::Inherited) {
                    let at = match &f.ident {
                        Some(i) => r(i.span()).start,
                        None => r(f.ty.span()).start,
                    };
                    self.0.ins(at, "pub ".into());
                } else {
                    self.visit_visibility(&f.vis);
                }
            }
            fn visit_variant(&mut self, _: &'a syn::Variant) {}
        }
        V(&mut cx).visit_item(it);
        let mut inherited = false;
        match it {
            syn::Item::Struct(s) => inherited = matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Enum(s) => inherited = matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Const(s) => inherited = matches!(s.vis, syn::Visibility::Inherited),
            syn::Item::Type(s) => inherited = matches!(s.vis, syn::Visibility::Inherited),
            _ => {}
        }
        for (a, b) in rewrites {
            let body = &src.text[g.clone()];
            let mut any = false;
            let mut from = 0;
            while let Some(i) = body[from..].find(a.as_str()) {
                let s = g.start + from + i;
                cx.rep(s, s + a.len(), b.clone());
                from += i + a.len();
                any = true;
            }
            if !any {
                lost(format!("rewrite target `{}` in {}", a, name));
            }
        }
        let body = apply(&src.text, g, cx.edits);
        let vis = if inherited { "pub " } else { "" };
        let body = body.trim_start();
        return format!("{}\n{}{}", derives, vis, body);
    }
    lost(format!("{} {}", kind, name))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: vx REPO CONTRACT.vc OUT.rs OUT.json [--reach]");
        std::process::exit(2);
    }
    let reach = a.iter().any(|x| x == "--reach");
    let skips: BTreeSet<String> = a.windows(2).filter(|w| w[0] == "--skip").map(|w| w[1].clone()).collect();
    let ct = std::fs::read_to_string(&a[2]).expect("contract file");
    let dir = std::path::Path::new(&a[2]).parent().unwrap().to_path_buf();
    let pieces = parse_contract(&ct, &dir);
    let mut repo = Repo { root: a[1].clone(), files: BTreeMap::new() };
    let mut out = String::new();
    let mut fns: Vec<Value> = vec![];
    let mut items: Vec<Value> = vec![];
    let mut rewrites: Vec<Value> = vec![];
    let mut drops: BTreeSet<String> = BTreeSet::new();
    let mut in_impl: Option<(String, String, bool)> = None;
    for p in &pieces {
        match p {
            Piece::Text(t) => out.push_str(t),
            Piece::Macros { file, names } => {
                let src = repo.get(file);
                let mut seen = 0;
                for it in &src.ast.items {
                    if let syn::Item::Macro(m) = it {
                        if let Some(id) = &m.ident {
                            if names.iter().any(|n| id == n) {
                                let s = r(m.mac.path.span()).start;
                                let e = r(m.span()).end;
                                out.push_str("#[macro_export]\n");
                                out.push_str(&src.text[s..e]);
                                out.push('\n');
                                seen += 1;
                            }
                        }
                    }
                }
                if seen != names.len() {
                    lost(format!("macros {:?} in {}", names, file));
                }
                items.push(json!({"file": file, "macros": names}));
            }
            Piece::Item { file, kind, name, derives, rewrites: rw } => {
                let src = repo.get(file);
                out.push_str(&emit_item(src, kind, name, derives, rw));
                out.push('\n');
                items.push(json!({"file": file, "item": format!("{} {}", kind, name), "kept_derives": derives}));
                for (x, y) in rw {
                    rewrites.push(json!({"in": name, "from": x, "to": y}));
                }
            }
            Piece::ImplOpen { file, sel } => {
                let src = repo.get(file);
                let want = tail_key(&strip_lifetimes(sel));
                let mut its = vec![];
                all_items(&src.ast.items, &mut its);
                let mut hdr = None;
                for it in its {
                    if let syn::Item::Impl(im) = it {
                        if tail_key(&impl_key(im)) == want {
                            let start = r(im.impl_token.span()).start;
                            let end = r(im.brace_token.span.open()).start;
                            let mut sc = Scan::default();
                            sc.visit_generics(&im.generics);
                            if let Some((_, p, _)) = &im.trait_ {
                                sc.visit_path(p);
                            }
                            sc.visit_type(&im.self_ty);
                            let mut cx = Ctx { edits: vec![], seq: 0 };
                            for (s, e, t) in &sc.paths {
                                cx.rep(*s, *e, t.to_string());
                            }
                            let mut h = apply(&src.text, start..end, cx.edits);
                            h.push_str(" {\n");
                            for x in &im.items {
                                if let syn::ImplItem::Type(t) = x {
                                    let mut sc = Scan::default();
                                    sc.visit_type(&t.ty);
                                    let mut cx = Ctx { edits: vec![], seq: 0 };
                                    for (s, e, t) in &sc.paths {
                                        cx.rep(*s, *e, t.to_string());
                                    }
                                    h.push_str(&apply(&src.text, r(t.type_token.span()).start..r(t.span()).end, cx.edits));
                                    h.push('\n');
                                }
                            }
                            hdr = Some((h, im.trait_.is_some()));
                            break;
                        }
                    }
                }
                let (h, is_trait) = hdr.unwrap_or_else(|| lost(format!("impl {} in {}", sel, file)));
                out.push_str(&h);
                in_impl = Some((file.clone(), sel.clone(), is_trait));
            }
            Piece::ImplClose => {
                out.push_str("}\n");
                in_impl = None;
            }
            Piece::Fn(d) => {
                let mut d = d.clone();
                let mut trait_impl = false;
                if let Some((f, s, t)) = &in_impl {
                    d.file = f.clone();
                    d.sel = format!("{}::{}", s, d.sel.rsplit("::").next().unwrap());
                    trait_impl = *t;
                }
                let src = repo.get(&d.file);
                let start_line = out.matches('\n').count() + 1;
                let key = format!("{} {}", d.file, d.sel);
                let skip = skips.contains(&key);
                CURRENT.with(|c| *c.borrow_mut() = if skip { String::new() } else { key.clone() });
                let (text, skel) = emit_fn(src, &d, trait_impl, reach, skip, &mut drops);
                CURRENT.with(|c| c.borrow_mut().clear());
                let wrap = if in_impl.is_none() && !d.bare {
                    match find_fn(src, &d.sel) {
                        Some(Found::Method(im, _)) if im.trait_.is_none() => {
                            let start = r(im.impl_token.span()).start;
                            let end = r(im.brace_token.span.open()).start;
                            Some(src.text[start..end].to_string())
                        }
                        Some(Found::Method(..)) => panic!("{}: trait impl methods need an //@ impl block", d.sel),
                        _ => None,
                    }
                } else {
                    None
                };
                if let Some(w) = &wrap {
                    out.push_str(&format!("{} {{\n", w.trim()));
                }
                out.push_str(&text);
                out.push('\n');
                if wrap.is_some() {
                    out.push_str("}\n");
                }
                let end_line = out.matches('\n').count();
                for (x, y) in &d.rewrites {
                    rewrites.push(json!({"in": d.sel, "from": x, "to": y}));
                }
                fns.push(json!({"file": d.file, "fn": d.sel, "lines": [start_line, end_line], "skeleton": skel, "reach": d.reach && !skip, "skipped": skip}));
            }
        }
    }
    std::fs::write(&a[3], &out).unwrap();
    let j = json!({"functions": fns, "items": items, "rewrites": rewrites, "drops": drops});
    std::fs::write(&a[4], serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
