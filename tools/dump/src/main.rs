//! Parses Rust source files and prints, as JSON, the byte spans of every item,
//! function, loop and selected expression.  The weaver splices contracts into
//! the original text at these offsets; nothing is pretty printed.
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn sp(s: Span) -> Value {
    let r = s.byte_range();
    json!([r.start, r.end])
}
fn join<T: Spanned>(t: &T) -> Value {
    sp(t.span())
}
fn norm<T: ToTokens>(t: &T) -> String {
    // canonical token text without whitespace except between words
    let s = t.to_token_stream().to_string();
    let mut out = String::new();
    let cs: Vec<char> = s.chars().collect();
    for i in 0..cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            let p = out.chars().last().unwrap_or(' ');
            let n = cs[i + 1..].iter().find(|c| !c.is_whitespace()).copied().unwrap_or(' ');
            let w = |c: char| c.is_alphanumeric() || c == '_' || c == '\'' || c == '"';
            if w(p) && w(n) && !out.ends_with(' ') {
                out.push(' ');
            }
        } else {
            out.push(c);
        }
    }
    out
}

struct V {
    path: Vec<String>,
    items: Vec<Value>,
    fns: Vec<Value>,
    nodes: Vec<Value>,
    cur_fn: Vec<usize>,
    depth: usize,
    loop_no: Vec<usize>,
    impl_ctx: Vec<(Option<String>, String)>,
    nid: usize,
    in_trait: Vec<String>,
}

impl V {
    fn node(&mut self, kind: &str, span: Value, extra: Value) {
        let f = self.cur_fn.last().map(|x| *x as i64).unwrap_or(-1);
        let mut o = json!({"id": self.nid, "kind": kind, "span": span, "fn": f, "depth": self.depth});
        self.nid += 1;
        if let (Some(m), Some(e)) = (o.as_object_mut(), extra.as_object()) {
            for (k, v) in e {
                m.insert(k.clone(), v.clone());
            }
        }
        self.nodes.push(o);
    }
    fn item(&mut self, kind: &str, name: String, span: Value, attrs: &[syn::Attribute], extra: Value) {
        let av: Vec<Value> = attrs
            .iter()
            .map(|a| json!({"span": join(a), "text": norm(a)}))
            .collect();
        let mut o = json!({"kind": kind, "name": name, "span": span, "attrs": av,
            "in_fn": self.cur_fn.last().map(|x| *x as i64).unwrap_or(-1),
            "scope": self.path.clone()});
        if let (Some(m), Some(e)) = (o.as_object_mut(), extra.as_object()) {
            for (k, v) in e {
                m.insert(k.clone(), v.clone());
            }
        }
        self.items.push(o);
    }
    fn do_fn(
        &mut self,
        whole: Value,
        attrs: &[syn::Attribute],
        vis: Option<&syn::Visibility>,
        sig: &syn::Signature,
        block: Option<&syn::Block>,
        semi: Option<Value>,
    ) {
        let (tr, ty) = self
            .impl_ctx
            .last()
            .cloned()
            .map(|(a, b)| (a, Some(b)))
            .unwrap_or((None, None));
        let parent = self.cur_fn.last().map(|x| *x as i64).unwrap_or(-1);
        let idx = self.fns.len();
        let av: Vec<Value> = attrs
            .iter()
            .map(|a| json!({"span": join(a), "text": norm(a)}))
            .collect();
        let out = match &sig.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => join(&**t),
        };
        let params: Vec<Value> = sig
            .inputs
            .iter()
            .map(|a| match a {
                syn::FnArg::Receiver(r) => json!({"self": true, "span": join(r), "text": norm(r)}),
                syn::FnArg::Typed(t) => {
                    json!({"self": false, "span": join(t), "pat": norm(&t.pat), "ty": norm(&t.ty),
                           "pat_span": join(&t.pat), "ty_span": join(&t.ty)})
                }
            })
            .collect();
        let wh = sig
            .generics
            .where_clause
            .as_ref()
            .map(|w| join(w))
            .unwrap_or(Value::Null);
        self.fns.push(json!({
            "idx": idx, "name": sig.ident.to_string(), "scope": self.path.clone(),
            "trait": tr, "self_ty": ty, "in_trait": self.in_trait.last(),
            "parent_fn": parent, "span": whole, "attrs": av,
            "vis": vis.map(|v| join(v)), "vis_text": vis.map(|v| norm(v)),
            "sig": join(sig), "ident": join(&sig.ident), "paren_end": sp(sig.paren_token.span.close()),
            "out": out, "out_text": match &sig.output { syn::ReturnType::Default => String::new(), syn::ReturnType::Type(_, t) => norm(&**t) },
            "where": wh, "params": params,
            "generics": norm(&sig.generics),
            "body": block.map(|b| json!([b.brace_token.span.open().byte_range().start, b.brace_token.span.close().byte_range().end])),
            "semi": semi,
            "sig_text": norm(sig),
        }));
        self.cur_fn.push(idx);
        self.loop_no.push(0);
        let saved = std::mem::take(&mut self.impl_ctx);
        self.path.push(sig.ident.to_string());
        if let Some(b) = block {
            self.visit_block(b);
        }
        self.path.pop();
        self.impl_ctx = saved;
        self.loop_no.pop();
        self.cur_fn.pop();
    }
    fn loop_node(&mut self, kind: &str, e: Value, body: &syn::Block, label: Option<&syn::Label>, extra: Value) {
        let n = self.loop_no.last_mut().map(|x| {
            let v = *x;
            *x += 1;
            v
        });
        let mut ex = json!({"loop": n,
            "label": label.map(|l| norm(&l.name)),
            "body": [body.brace_token.span.open().byte_range().start, body.brace_token.span.close().byte_range().end]});
        if let (Some(m), Some(e)) = (ex.as_object_mut(), extra.as_object()) {
            for (k, v) in e {
                m.insert(k.clone(), v.clone());
            }
        }
        self.node(kind, e, ex);
    }
}

impl<'ast> Visit<'ast> for V {
    fn visit_item_fn(&mut self, i: &'ast syn::ItemFn) {
        self.do_fn(join(i), &i.attrs, Some(&i.vis), &i.sig, Some(&i.block), None);
    }
    fn visit_impl_item_fn(&mut self, i: &'ast syn::ImplItemFn) {
        self.do_fn(join(i), &i.attrs, Some(&i.vis), &i.sig, Some(&i.block), None);
    }
    fn visit_trait_item_fn(&mut self, i: &'ast syn::TraitItemFn) {
        self.do_fn(
            join(i),
            &i.attrs,
            None,
            &i.sig,
            i.default.as_ref(),
            i.semi_token.as_ref().map(|s| join(s)),
        );
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        let tr = i.trait_.as_ref().map(|t| norm(&t.0));
        let ty = norm(&*i.self_ty);
        self.item(
            "impl",
            ty.clone(),
            join(i),
            &i.attrs,
            json!({"trait": tr, "self_ty": ty, "generics": norm(&i.generics),
                "brace": [i.brace_token.span.open().byte_range().start, i.brace_token.span.close().byte_range().end],
                "where": i.generics.where_clause.as_ref().map(|w| join(w)),
                "assoc": i.items.iter().filter_map(|x| match x {
                    syn::ImplItem::Fn(_) => None,
                    o => Some(json!({"span": join(o), "text": norm(o)})),
                }).collect::<Vec<_>>(),
            }),
        );
        self.impl_ctx.push((tr, ty.clone()));
        self.path.push(ty);
        for it in &i.items {
            self.visit_impl_item(it);
        }
        self.path.pop();
        self.impl_ctx.pop();
    }
    fn visit_item_trait(&mut self, i: &'ast syn::ItemTrait) {
        self.item("trait", i.ident.to_string(), join(i), &i.attrs, json!({
            "brace": [i.brace_token.span.open().byte_range().start, i.brace_token.span.close().byte_range().end]}));
        self.path.push(i.ident.to_string());
        self.in_trait.push(i.ident.to_string());
        for it in &i.items {
            self.visit_trait_item(it);
        }
        self.in_trait.pop();
        self.path.pop();
    }
    fn visit_item_mod(&mut self, i: &'ast syn::ItemMod) {
        self.item("mod", i.ident.to_string(), join(i), &i.attrs, json!({"inline": i.content.is_some()}));
        self.path.push(i.ident.to_string());
        if let Some((_, items)) = &i.content {
            for it in items {
                self.visit_item(it);
            }
        }
        self.path.pop();
    }
    fn visit_item_struct(&mut self, i: &'ast syn::ItemStruct) {
        let fields: Vec<Value> = i.fields.iter().map(|f| json!({
            "name": f.ident.as_ref().map(|x| x.to_string()), "ty": norm(&f.ty), "vis": norm(&f.vis), "span": join(f)})).collect();
        self.item("struct", i.ident.to_string(), join(i), &i.attrs, json!({"fields": fields, "generics": norm(&i.generics), "vis": norm(&i.vis)}));
    }
    fn visit_item_enum(&mut self, i: &'ast syn::ItemEnum) {
        self.item("enum", i.ident.to_string(), join(i), &i.attrs, json!({
            "variants": i.variants.iter().map(|v| json!({"name": v.ident.to_string(), "text": norm(v)})).collect::<Vec<_>>()}));
    }
    fn visit_item_static(&mut self, i: &'ast syn::ItemStatic) {
        self.item("static", i.ident.to_string(), join(i), &i.attrs, json!({"ty": norm(&*i.ty), "expr": join(&*i.expr)}));
    }
    fn visit_item_const(&mut self, i: &'ast syn::ItemConst) {
        self.item("const", i.ident.to_string(), join(i), &i.attrs, json!({"ty": norm(&*i.ty), "expr": join(&*i.expr)}));
    }
    fn visit_item_use(&mut self, i: &'ast syn::ItemUse) {
        self.item("use", norm(&i.tree), join(i), &i.attrs, json!({}));
    }
    fn visit_item_type(&mut self, i: &'ast syn::ItemType) {
        self.item("type", i.ident.to_string(), join(i), &i.attrs, json!({}));
    }
    fn visit_item_macro(&mut self, i: &'ast syn::ItemMacro) {
        let name = i.ident.as_ref().map(|x| x.to_string()).unwrap_or_else(|| norm(&i.mac.path));
        let kind = if i.ident.is_some() { "macro_rules" } else { "macro_call" };
        let tb = &i.mac.tokens;
        self.item(kind, name, join(i), &i.attrs, json!({"tokens": join(tb), "text": norm(tb)}));
    }
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        let s = join(e);
        use syn::Expr::*;
        match e {
            While(w) => self.loop_node("while", s, &w.body, w.label.as_ref(), json!({"cond": join(&*w.cond), "cond_text": norm(&*w.cond)})),
            Loop(w) => self.loop_node("loop", s, &w.body, w.label.as_ref(), json!({})),
            ForLoop(w) => self.loop_node("for", s, &w.body, w.label.as_ref(), json!({
                "pat": join(&*w.pat), "expr": join(&*w.expr), "expr_text": norm(&*w.expr), "pat_text": norm(&*w.pat)})),
            Binary(b) => {
                self.node("binary", s, json!({"op": norm(&b.op), "left": join(&*b.left), "right": join(&*b.right),
                    "left_text": norm(&*b.left), "right_text": norm(&*b.right)}));
            }
            MethodCall(m) => {
                self.node("mcall", s, json!({"recv": join(&*m.receiver), "recv_text": norm(&*m.receiver), "method": m.method.to_string(),
                    "method_span": join(&m.method),
                    "args": m.args.iter().map(|a| join(a)).collect::<Vec<_>>(),
                    "args_text": m.args.iter().map(|a| norm(a)).collect::<Vec<_>>(),
                    "turbofish": m.turbofish.as_ref().map(|t| norm(t))}));
            }
            Call(c) => {
                self.node("call", s, json!({"func": join(&*c.func), "func_text": norm(&*c.func),
                    "args": c.args.iter().map(|a| join(a)).collect::<Vec<_>>(),
                    "args_text": c.args.iter().map(|a| norm(a)).collect::<Vec<_>>()}));
            }
            Macro(m) => {
                self.node("macro", s, json!({"name": norm(&m.mac.path), "tokens": join(&m.mac.tokens), "text": norm(&m.mac.tokens)}));
            }
            Return(r) => self.node("return", s, json!({"expr": r.expr.as_ref().map(|e| join(&**e))})),
            Block(b) => {
                self.node("block", s, json!({"label": b.label.as_ref().map(|l| norm(&l.name))}))
            }
            Unsafe(_) => self.node("unsafe", s, json!({})),
            Match(m) => self.node("match", s, json!({"scrut": join(&*m.expr), "scrut_text": norm(&*m.expr),
                "arms": m.arms.iter().map(|a| json!({"span": join(a), "pat": join(&a.pat), "pat_text": norm(&a.pat), "body": join(&*a.body)})).collect::<Vec<_>>()})),
            If(i) => self.node("if", s, json!({"cond": join(&*i.cond), "then": join(&i.then_branch), "else": i.else_branch.as_ref().map(|e| join(&*e.1)), "cond_text": norm(&*i.cond)})),
            Let(l) => self.node("letexpr", s, json!({"pat": join(&*l.pat), "pat_text": norm(&*l.pat), "expr": join(&*l.expr), "expr_text": norm(&*l.expr)})),
            Index(x) => self.node("index", s, json!({"base": join(&*x.expr), "base_text": norm(&*x.expr), "index": join(&*x.index), "index_text": norm(&*x.index),
                "range": matches!(&*x.index, syn::Expr::Range(_))})),
            Closure(c) => self.node("closure", s, json!({"body": join(&*c.body)})),
            Unary(u) => self.node("unary", s, json!({"op": norm(&u.op), "expr": join(&*u.expr), "expr_text": norm(&*u.expr)})),
            Lit(l) => self.node("lit", s, json!({"text": norm(l)})),
            Try(t) => self.node("try", s, json!({"expr": join(&*t.expr)})),
            Cast(c) => self.node("cast", s, json!({"expr": join(&*c.expr), "ty": norm(&*c.ty), "ty_span": join(&*c.ty)})),
            Break(b) => self.node("break", s, json!({"label": b.label.as_ref().map(|l| norm(l))})),
            Continue(b) => self.node("continue", s, json!({"label": b.label.as_ref().map(|l| norm(l))})),
            Assign(a) => self.node("assign", s, json!({"left": join(&*a.left), "right": join(&*a.right), "left_text": norm(&*a.left), "right_text": norm(&*a.right)})),
            Field(f) => self.node("field", s, json!({"text": norm(f)})),
            Path(p) => self.node("path", s, json!({"text": norm(p)})),
            Struct(p) => self.node("structlit", s, json!({"text": norm(&p.path), "path": join(&p.path)})),
            Reference(r) => self.node("ref", s, json!({"expr": join(&*r.expr), "mut": r.mutability.is_some(), "expr_text": norm(&*r.expr)})),
            _ => {}
        }
        self.depth += 1;
        visit::visit_expr(self, e);
        self.depth -= 1;
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        match s {
            syn::Stmt::Local(l) => {
                self.node("let", join(l), json!({"pat": norm(&l.pat), "pat_span": join(&l.pat), "init": l.init.as_ref().map(|i| join(&*i.expr)),
                    "init_text": l.init.as_ref().map(|i| norm(&*i.expr)), "has_else": l.init.as_ref().map(|i| i.diverge.is_some())}))
            }
            syn::Stmt::Macro(m) => self.node(
                "stmt_macro",
                join(m),
                json!({"name": norm(&m.mac.path), "tokens": join(&m.mac.tokens), "text": norm(&m.mac.tokens)}),
            ),
            syn::Stmt::Expr(e, semi) => self.node("stmt_expr", join(s), json!({"expr": join(e), "semi": semi.is_some()})),
            _ => {}
        }
        visit::visit_stmt(self, s);
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        self.node("pat", join(p), json!({"text": norm(p)}));
        visit::visit_pat(self, p);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) {
        self.node("ty", join(t), json!({"text": norm(t)}));
        visit::visit_type(self, t);
    }
}

fn main() {
    let mut out = serde_json::Map::new();
    for p in std::env::args().skip(1) {
        let src = match std::fs::read_to_string(&p) {
            Ok(s) => s,
            Err(e) => {
                out.insert(p, json!({"error": e.to_string()}));
                continue;
            }
        };
        match syn::parse_file(&src) {
            Ok(f) => {
                let mut v = V {
                    path: vec![], items: vec![], fns: vec![], nodes: vec![], cur_fn: vec![], depth: 0,
                    loop_no: vec![], impl_ctx: vec![], nid: 0, in_trait: vec![],
                };
                for i in &f.items {
                    v.visit_item(i);
                }
                out.insert(p, json!({"items": v.items, "fns": v.fns, "nodes": v.nodes}));
            }
            Err(e) => {
                out.insert(p, json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(out));
}
