//! Body rewriting (see README.md: T1..T9).
use crate::{fail, find, Config, ItemSpec};
use proc_macro2::Span;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

pub struct Desugar<'a> {
    cfg: &'a Config,
    spec: &'a ItemSpec,
    files: &'a find::Files,
    pub loops: usize,
    pub auto_inv: HashMap<usize, String>,
    pub auto_dec: HashMap<usize, String>,
    pub inlined: Vec<String>,
    floatcast: bool,
    bitwise: bool,
    depth: usize,
    /// local variables that hold an iterator over a slice (bound with `let x = place.iter()`)
    iters: std::collections::HashSet<String>,
    /// local variables that hold a lazy iterator chain
    lazy: HashMap<String, Expr>,
    /// inside a chain whose result is immediately propagated with `?`
    in_try: bool,
    /// latest `let` binding of each local, as text
    lets: HashMap<String, String>,
    /// parameters of the function that are references
    pub refs: std::collections::HashSet<String>,
}

/// Closed-form description of an iterator: its length and its n-th item.
struct It {
    setup: Vec<Stmt>,
    len: Expr,
    item: Box<dyn Fn(Expr) -> Expr>,
    /// the item is a place that is mutated through (iter_mut)
    muts: bool,
    /// statements to run before the item is formed (map closures with blocks are inlined in item)
    filter: Option<Box<dyn Fn(Expr) -> Expr>>,
}

fn id(s: &str) -> syn::Ident {
    syn::Ident::new(s, Span::call_site())
}

fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        _ => e,
    }
}

/// Parse a decimal float literal into an exact fraction.
pub fn float_frac(s: &str) -> Option<(u128, u128)> {
    let s = s.replace('_', "");
    let s = s.trim_end_matches("f64").to_string();
    let (m, e) = match s.split_once(['e', 'E']) {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match m.split_once('.') {
        Some((a, b)) => (a.to_string(), b.to_string()),
        None => (m.clone(), String::new()),
    };
    let digits = format!("{ip}{fp}");
    let mut num: u128 = if digits.is_empty() { 0 } else { digits.parse().ok()? };
    let mut exp = e - fp.len() as i32;
    let mut den: u128 = 1;
    while exp > 0 {
        num = num.checked_mul(10)?;
        exp -= 1;
    }
    while exp < 0 {
        if num % 10 == 0 && num > 0 {
            num /= 10;
        } else {
            den = den.checked_mul(10)?;
        }
        exp += 1;
    }
    if num == 0 {
        den = 1;
    }
    Some((num, den))
}

pub fn const_real(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Lit(l) => match &l.lit {
            syn::Lit::Float(f) => {
                let (n, d) = float_frac(&f.to_string())?;
                Some(if d == 1 { format!("({n}real)") } else { format!("({n}real / {d}real)") })
            }
            _ => None,
        },
        Expr::Unary(u) if matches!(u.op, syn::UnOp::Neg(_)) => Some(format!("(-{})", const_real(&u.expr)?)),
        _ => None,
    }
}

fn is_place(e: &Expr) -> bool {
    match peel(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Unary(u) => matches!(u.op, syn::UnOp::Deref(_)) && is_place(&u.expr),
        Expr::Index(i) => is_place(&i.expr) && (is_place(&i.index) || matches!(peel(&i.index), Expr::Lit(_))),
        _ => false,
    }
}

struct HasReturn(bool, bool);
impl VisitMut for HasReturn {
    fn visit_expr_return_mut(&mut self, i: &mut syn::ExprReturn) {
        self.0 = true;
        visit_mut::visit_expr_return_mut(self, i);
    }
    fn visit_expr_try_mut(&mut self, i: &mut syn::ExprTry) {
        self.1 = true;
        visit_mut::visit_expr_try_mut(self, i);
    }
    fn visit_expr_closure_mut(&mut self, _i: &mut syn::ExprClosure) {}
}

/// `break` or `continue` of the enclosing loop
struct HasJump(bool);
impl VisitMut for HasJump {
    fn visit_expr_break_mut(&mut self, _: &mut syn::ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue_mut(&mut self, _: &mut syn::ExprContinue) {
        self.0 = true;
    }
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

/// Replace `*x` / `x` by a place expression (for `iter_mut` bindings).
struct SubstPlace {
    name: String,
    place: Expr,
}
impl VisitMut for SubstPlace {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) {
                if let Expr::Path(p) = &*u.expr {
                    if p.path.is_ident(&self.name) {
                        *e = self.place.clone();
                        return;
                    }
                }
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.name) {
                *e = self.place.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

impl<'a> Desugar<'a> {
    pub fn new(cfg: &'a Config, spec: &'a ItemSpec, files: &'a find::Files) -> Self {
        Self {
            cfg,
            spec,
            files,
            loops: 0,
            auto_inv: HashMap::new(),
            auto_dec: HashMap::new(),
            inlined: vec![],
            iters: Default::default(),
            lazy: Default::default(),
            lets: Default::default(),
            refs: Default::default(),
            in_try: false,
            floatcast: spec.has("floatcast"),
            bitwise: spec.has("bitwise"),
            depth: 0,
        }
    }

    /// whether iterating over this place by value yields references
    fn by_ref(&self, name: &str) -> bool {
        if self.spec.words("byval").contains(&format!("!{name}")) {
            return true;
        }
        match self.lets.get(name) {
            Some(init) => syn::parse_str::<Expr>(init).map(|e| self.ref_call(&e)).unwrap_or(false),
            None => self.refs.contains(name),
        }
    }

    /// whether this is a call of a method that returns a reference to a collection
    fn ref_call(&self, e: &Expr) -> bool {
        match peel(e) {
            Expr::Try(t) => self.ref_call(&t.expr),
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "unwrap" | "expect") => self.ref_call(&m.receiver),
            Expr::MethodCall(m) => self.cfg.refcalls.contains(&m.method.to_string()),
            _ => false,
        }
    }

    pub fn block_mut(&mut self, b: &mut syn::Block) {
        self.visit_block_mut(b);
    }

    fn vec_decl(&self, k: usize, acc: &syn::Ident) -> syn::Stmt {
        self.vec_decl_of(&k.to_string(), acc)
    }

    fn vec_decl_of(&self, k: &str, acc: &syn::Ident) -> syn::Stmt {
        for l in self.spec.get("acctype").unwrap_or_default().lines() {
            if let Some((n, t)) = l.trim().split_once(' ') {
                if n == k {
                    let t = crate::parse_type(t);
                    return parse_quote!(let mut #acc: Vec<#t> = Vec::new(););
                }
            }
        }
        parse_quote!(let mut #acc = Vec::new();)
    }

    fn opt_decl(&self, k: usize, acc: &syn::Ident) -> Stmt {
        for l in self.spec.get("acctype").unwrap_or_default().lines() {
            if let Some((n, t)) = l.trim().split_once(' ') {
                if n.parse::<usize>().ok() == Some(k) {
                    let t = crate::parse_type(t);
                    return parse_quote!(let mut #acc: Option<#t> = None;);
                }
            }
        }
        parse_quote!(let mut #acc = None;)
    }

    fn new_loop(&mut self) -> usize {
        let k = self.loops;
        self.loops += 1;
        k
    }

    fn unsupported(&self, what: &str, e: &dyn ToTokens) -> ! {
        let s = e.to_token_stream().to_string();
        fail(format!("unsupported {what}: `{}`", s.chars().take(160).collect::<String>()))
    }

    // ---- iterators -------------------------------------------------------------------------

    fn base(&mut self, k: usize, recv: &Expr, by: &str) -> It {
        let mut r = peel(recv).clone();
        // `&x` / `&mut x`
        let mut by = by.to_string();
        if let Expr::Reference(rf) = &r {
            if by == "value" {
                by = if rf.mutability.is_some() { "mut".into() } else { "ref".into() };
            }
            r = (*rf.expr).clone();
        }
        if by == "own" && self.ref_call(&r) {
            by = "ref".into();
        }
        self.visit_expr_mut(&mut r);
        // a part `v[a..b]` of a vector
        if let Expr::Index(ix) = &r {
            if let Expr::Range(rg) = peel(&ix.index) {
                if let (syn::RangeLimits::HalfOpen(_), Some(a), Some(b)) = (&rg.limits, &rg.start, &rg.end) {
                    let v = &ix.expr;
                    r = parse_quote!(vstd::slice::slice_subrange(#v.as_slice(), #a, #b));
                }
            }
        }
        let mut setup = vec![];
        // iterating over a map that the unit names: its pairs in order
        let over_map = match &r {
            Expr::Field(f) => self.spec.words("mapiter").contains(&f.member.to_token_stream().to_string()),
            Expr::Path(p) => self.spec.words("mapiter").contains(&p.to_token_stream().to_string()),
            _ => false,
        };
        let place: Expr = if over_map {
            let n = id(&format!("_s{k}_{}", self.depth));
            self.depth += 1;
            setup.push(parse_quote!(let #n = #r.pairs();));
            by = "own".into();
            parse_quote!(#n)
        } else if is_place(&r) {
            r
        } else {
            let n = id(&format!("_s{k}_{}", self.depth));
            self.depth += 1;
            setup.push(parse_quote!(let #n = #r;));
            if by == "value" {
                by = "ref".into();
            }
            parse_quote!(#n)
        };
        if by == "value" {
            if let Expr::Path(p) = &place {
                let nm = p.to_token_stream().to_string();
                if self.by_ref(&nm) {
                    by = "ref".into();
                }
            }
        }
        let p2 = place.clone();
        // a consumed vector of a type without Copy: each item is moved out once
        let last = place.to_token_stream().to_string().split([' ', '.']).filter(|w| !w.is_empty()).last().unwrap_or("").to_string();
        if by != "ref" && by != "mut" && self.spec.words("moveout").contains(&last) {
            by = "move".into();
        }
        let (muts, item): (bool, Box<dyn Fn(Expr) -> Expr>) = match by.as_str() {
            "move" => (false, Box::new(move |i: Expr| parse_quote!(take_at(& #p2, #i)))),
            "ref" => (false, Box::new(move |i: Expr| parse_quote!(& #p2[#i]))),
            "mut" => (true, Box::new(move |i: Expr| parse_quote!(#p2[#i]))),
            _ => (false, Box::new(move |i: Expr| parse_quote!(#p2[#i]))),
        };
        It { setup, len: parse_quote!(#place.len()), item, muts, filter: None }
    }

    /// Recognise an iterator expression.
    fn parse_iter(&mut self, k: usize, e: &Expr, top_for: bool) -> Option<It> {
        match peel(e) {
            Expr::Range(r) => {
                if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
                    return None;
                }
                let (a, b) = (r.start.as_ref()?.clone(), r.end.as_ref()?.clone());
                let (mut a, mut b) = (*a, *b);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let an = id(&format!("_a{k}_{}", self.depth));
                let bn = id(&format!("_b{k}_{}", self.depth));
                self.depth += 1;
                let zero = matches!(peel(&a), Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(x) if x.base10_digits()=="0"));
                if zero {
                    return Some(It {
                        setup: vec![parse_quote!(let #bn = #b;)],
                        len: parse_quote!(#bn),
                        item: Box::new(move |i| i),
                        muts: false,
                        filter: None,
                    });
                }
                Some(It {
                    setup: vec![parse_quote!(let #an = #a;), parse_quote!(let #bn = #b;)],
                    len: parse_quote!((if #bn >= #an { #bn - #an } else { 0 })),
                    item: Box::new(move |i| parse_quote!((#an + #i))),
                    muts: false,
                    filter: None,
                })
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(c) = self.iterfn(m) {
                    return self.parse_iter(k, &c, top_for);
                }
                match name.as_str() {
                    "flat_map" if m.args.len() == 1 => {
                        // only `|x| x.iter()`: the items of the items, collected first
                        let Expr::Closure(c) = peel(&m.args[0]).clone() else { return None };
                        let (syn::Pat::Ident(pi), Expr::MethodCall(inner)) = (&c.inputs[0], peel(&c.body)) else { return None };
                        let (Expr::Path(r), true) = (peel(&inner.receiver), matches!(inner.method.to_string().as_str(), "iter" | "into_iter")) else { return None };
                        if !r.path.is_ident(&pi.ident) {
                            return None;
                        }
                        let ka = self.new_loop();
                        let kb = self.new_loop();
                        let it = self.parse_iter(ka, &m.receiver, false)?;
                        if it.filter.is_some() || it.muts {
                            return None;
                        }
                        let acc = id(&format!("_flat{ka}"));
                        let x = id(&format!("_x{ka}"));
                        let ib = self.base(kb, &parse_quote!(#x), "ref");
                        let acc2 = acc.clone();
                        let lp = self.emit_loop(ka, it, None, vec![], |me, item| {
                            let inner = me.emit_loop(kb, ib, None, vec![], |_, y| {
                                vec![parse_quote!(let _item = #y;), parse_quote!(__split__!();), parse_quote!(#acc2.push(_item);)]
                            }, None);
                            vec![parse_quote!(let #x = #item;), parse_quote!(__split__!();), Stmt::Expr(inner, Some(Default::default()))]
                        }, None);
                        let setup: Vec<Stmt> = vec![self.vec_decl(ka, &acc), Stmt::Expr(lp, Some(Default::default()))];
                        let acc3 = acc.clone();
                        Some(It { setup, len: parse_quote!(#acc.len()), item: Box::new(move |i: Expr| parse_quote!(#acc3[#i])), muts: false, filter: None })
                    }
                    "chain" if m.args.len() == 1 => {
                        // the items of one, then those of the other, collected first
                        let ka = self.new_loop();
                        let ia = self.parse_iter(ka, &m.receiver, false)?;
                        let kb = self.new_loop();
                        let ib = self.parse_iter(kb, &m.args[0], false)?;
                        if ia.muts || ib.muts {
                            return None;
                        }
                        let acc = id(&format!("_chain{ka}"));
                        let mut setup: Vec<Stmt> = vec![self.vec_decl(ka, &acc)];
                        for (kk, it) in [(ka, ia), (kb, ib)] {
                            let acc2 = acc.clone();
                            let lp = self.emit_loop(kk, it, None, vec![], |_, y| {
                                vec![parse_quote!(let _item = #y;), parse_quote!(__split__!();), parse_quote!(#acc2.push(_item);)]
                            }, None);
                            setup.push(Stmt::Expr(lp, Some(Default::default())));
                        }
                        let acc3 = acc.clone();
                        Some(It { setup, len: parse_quote!(#acc.len()), item: Box::new(move |i: Expr| parse_quote!(take_at(& #acc3, #i))), muts: false, filter: None })
                    }
                    "iter" if m.args.is_empty() => Some(self.base(k, &m.receiver, "ref")),
                    // the values of a map, as a sequence in an unknown order
                    "values" if m.args.is_empty() && is_place(peel(&m.receiver)) => {
                        let e = Expr::MethodCall(m.clone());
                        Some(self.base(k, &e, "ref"))
                    }
                    "into_values" | "into_keys" if m.args.is_empty() && is_place(peel(&m.receiver)) => {
                        let e = Expr::MethodCall(m.clone());
                        Some(self.base(k, &e, "own"))
                    }
                    "iter_mut" if m.args.is_empty() => Some(self.base(k, &m.receiver, "mut")),
                    "into_iter" if m.args.is_empty() => {
                        if let Some(it) = self.parse_iter(k, &m.receiver, false) {
                            return Some(it);
                        }
                        Some(self.base(k, &m.receiver, "value"))
                    }
                    "windows" if m.args.len() == 1 => {
                        let it = self.base(k, &m.receiver, "ref");
                        let n = m.args[0].clone();
                        let n2 = n.clone();
                        let len0 = it.len.clone();
                        // the place behind the base
                        let place: Expr = match &len0 {
                            Expr::MethodCall(c) => (*c.receiver).clone(),
                            _ => return None,
                        };
                        Some(It {
                            setup: it.setup,
                            len: parse_quote!((if #len0 >= #n { #len0 - #n + 1 } else { 0 })),
                            item: Box::new(move |i: Expr| parse_quote!(vslice(&#place, #i, #i + #n2))),
                            muts: false,
                            filter: None,
                        })
                    }
                    "enumerate" => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() {
                            return None;
                        }
                        let f = it.item;
                        Some(It { item: Box::new(move |i: Expr| { let x = f(i.clone()); parse_quote!((#i, #x)) }), ..it })
                    }
                    "skip" => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() {
                            return None;
                        }
                        let mut n = m.args[0].clone();
                        self.visit_expr_mut(&mut n);
                        let f = it.item;
                        let l = it.len.clone();
                        let n2 = n.clone();
                        Some(It {
                            len: parse_quote!((if #l >= #n { #l - #n } else { 0 })),
                            item: Box::new(move |i: Expr| f(parse_quote!((#i + #n2)))),
                            ..it
                        })
                    }
                    "take" => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() {
                            return None;
                        }
                        let mut n = m.args[0].clone();
                        self.visit_expr_mut(&mut n);
                        let l = it.len.clone();
                        Some(It { len: parse_quote!((if #l >= #n { #n } else { #l })), ..it })
                    }
                    "rev" => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() {
                            return None;
                        }
                        let f = it.item;
                        let l = it.len.clone();
                        Some(It { item: Box::new(move |i: Expr| f(parse_quote!((#l - 1 - #i)))), ..it })
                    }
                    "copied" | "cloned" => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        let f = it.item;
                        Some(It { item: Box::new(move |i: Expr| { let x = f(i); match &x { Expr::Reference(r) => (*r.expr).clone(), _ => parse_quote!(*#x) } }), ..it })
                    }
                    "zip" => {
                        let a = self.parse_iter(k, &m.receiver, false)?;
                        let arg = m.args[0].clone();
                        let b = match self.parse_iter(k, &arg, false) {
                            Some(b) => b,
                            None => self.base(k, &arg, "value"),
                        };
                        if a.filter.is_some() || b.filter.is_some() {
                            return None;
                        }
                        let (la, lb) = (a.len.clone(), b.len.clone());
                        let (fa, fb) = (a.item, b.item);
                        let mut setup = a.setup;
                        setup.extend(b.setup);
                        Some(It {
                            setup,
                            len: parse_quote!((if #la <= #lb { #la } else { #lb })),
                            item: Box::new(move |i: Expr| {
                                let x = fa(i.clone());
                                let y = fb(i);
                                parse_quote!((#x, #y))
                            }),
                            muts: a.muts || b.muts,
                            filter: None,
                        })
                    }
                    "map" if m.args.len() == 1 => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() || it.muts {
                            return None;
                        }
                        let f = it.item;
                        let g = self.closure1(&m.args[0]);
                        Some(It { item: Box::new(move |i: Expr| g(f(i))), ..it })
                    }
                    "filter" if m.args.len() == 1 => {
                        let it = self.parse_iter(k, &m.receiver, false)?;
                        if it.filter.is_some() || it.muts {
                            return None;
                        }
                        let g = self.closure1(&m.args[0]);
                        Some(It { filter: Some(Box::new(move |x: Expr| g(parse_quote!(&#x)))), ..it })
                    }
                    // a call that returns a collection of `Copy` items
                    _ if top_for => Some(self.base(k, e, "own")),
                    _ => None,
                }
            }
            Expr::Path(p) if self.lazy.contains_key(&p.to_token_stream().to_string()) => {
                let c = self.lazy[&p.to_token_stream().to_string()].clone();
                self.parse_iter(k, &c, top_for)
            }
            Expr::Path(p) if self.iters.contains(&p.to_token_stream().to_string()) => Some(self.base(k, e, "ref")),
            Expr::Reference(_) if top_for => Some(self.base(k, e, "value")),
            _ if top_for => Some(self.base(k, e, "value")),
            _ => None,
        }
    }

    /// A one-argument closure (or function path) as a rewriting of its argument.
    fn closure1(&mut self, c: &Expr) -> Box<dyn Fn(Expr) -> Expr> {
        match peel(c) {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let pat = c.inputs[0].clone();
                let mut body = (*c.body).clone();
                if has_try(&body) && !self.in_try {
                    match untry(&body) {
                        Some(b) => body = b,
                        None => self.unsupported("closure with `?`", c),
                    }
                }
                self.visit_expr_mut(&mut body);
                Box::new(move |x: Expr| {
                    let binds = bind(&pat, &x);
                    parse_quote!({ #(#binds)* #body })
                })
            }
            Expr::Path(p) => {
                let mut p = Expr::Path(p.clone());
                self.visit_expr_mut(&mut p);
                Box::new(move |x: Expr| parse_quote!(#p(#x)))
            }
            o => self.unsupported("closure", o),
        }
    }

    fn loop_parts(&mut self, k: usize, it: &It, extra_cond: Option<Expr>) -> (Vec<Stmt>, Expr) {
        let n = id(&format!("_n{k}"));
        let i = id(&format!("_i{k}"));
        let len = &it.len;
        let mut pre = it.setup.clone();
        // a range over another integer type counts in that type
        let mut ty: syn::Type = parse_quote!(usize);
        for l in self.spec.get("idxtype").unwrap_or_default().lines() {
            if let Some((m, t)) = l.trim().split_once(' ') {
                if m == k.to_string() {
                    ty = crate::parse_type(t);
                }
            }
        }
        pre.push(parse_quote!(let #n: #ty = #len;));
        pre.push(parse_quote!(let mut #i: #ty = 0;));
        self.auto_inv.insert(k, format!("{i} <= {n}"));
        self.auto_dec.insert(k, format!("{n} - {i}"));
        let cond: Expr = match extra_cond {
            Some(c) => parse_quote!(#i < #n && #c),
            None => parse_quote!(#i < #n),
        };
        (pre, cond)
    }

    fn mk(&self, name: &str, k: usize) -> Stmt {
        let m = id(&format!("__{name}_{k}"));
        parse_quote!(#m!();)
    }

    /// The generic loop: `body` gets the item expression.
    fn emit_loop(&mut self, k: usize, it: It, extra_cond: Option<Expr>, mut pre0: Vec<Stmt>, body: impl FnOnce(&mut Self, Expr) -> Vec<Stmt>, tail: Option<Expr>) -> Expr {
        let (pre, cond) = self.loop_parts(k, &it, extra_cond);
        pre0.extend(pre);
        let i = id(&format!("_i{k}"));
        // with a filter everything runs after the index has been advanced
        let item = if it.filter.is_some() { (it.item)(parse_quote!((#i - 1))) } else { (it.item)(parse_quote!(#i)) };
        let mut stmts = body(self, item.clone());
        if let Some(f) = &it.filter {
            let c = f(item);
            stmts.retain(|s| !matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__split__")));
            stmts = vec![parse_quote!(if #c { #(#stmts)* })];
        }
        let (lm, top, end, bef, aft) =
            (self.mk("loop", k), self.mk("top", k), self.mk("end", k), self.mk("before", k), self.mk("after", k));
        // index is advanced after the item is bound, before the rest of the body (so `continue` is safe)
        let (binds, rest): (Vec<Stmt>, Vec<Stmt>) = split_binds(stmts);
        match tail {
            Some(t) => parse_quote!({ #(#pre0)* #bef while #cond { #lm #(#binds)* #i = #i + 1; #top #(#rest)* #end } #aft #t }),
            None => parse_quote!({ #(#pre0)* #bef while #cond { #lm #(#binds)* #i = #i + 1; #top #(#rest)* #end } #aft }),
        }
    }

    fn for_loop(&mut self, f: &syn::ExprForLoop) -> Expr {
        // over an array literal: once for each element
        if let (Expr::Array(a), None) = (peel(&f.expr), &f.label) {
            let mut hj = HasJump(false);
            hj.visit_block_mut(&mut f.body.clone());
            if !a.elems.is_empty() && a.elems.len() <= 4 && !hj.0 {
                let mut stmts: Vec<Stmt> = vec![];
                for el in a.elems.iter() {
                    let (pat, body) = ((*f.pat).clone(), f.body.stmts.clone());
                    let mut b: syn::Block = parse_quote!({ let #pat = #el; #(#body)* });
                    self.visit_block_mut(&mut b);
                    if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    stmts.push(Stmt::Expr(parse_quote!(#b), None));
                }
                return parse_quote!({ #(#stmts)* });
            }
        }
        let k = self.new_loop();
        if f.label.is_some() {
            self.unsupported("labelled loop", f);
        }
        let Some(it) = self.parse_iter(k, &f.expr, true) else { self.unsupported("iterator", &f.expr) };
        let pat = (*f.pat).clone();
        if let syn::Pat::Ident(p) = &pat {
            self.lets.insert(p.ident.to_string(), f.expr.to_token_stream().to_string());
        }
        let mut body = f.body.clone();
        let muts = it.muts;
        self.emit_loop(
            k,
            it,
            None,
            vec![],
            |me, item| {
                let mut stmts = vec![];
                if muts {
                    let mut subs = vec![];
                    let binds = bind_mut(&pat, &item, &mut subs);
                    for (n, p) in subs {
                        // the index variable has been advanced when the body runs
                        let p2 = reindex(p, k);
                        SubstPlace { name: n, place: p2 }.visit_block_mut(&mut body);
                    }
                    stmts.extend(binds);
                } else {
                    stmts.extend(bind(&pat, &item));
                }
                stmts.push(parse_quote!(__split__!();));
                me.visit_block_mut(&mut body);
                stmts.extend(body.stmts.clone());
                // a tail expression must become a statement
                if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
                    *semi = Some(Default::default());
                }
                stmts
            },
            None,
        )
    }

    /// A sink over an iterator chain. Returns None when `m` is not one.
    fn sink(&mut self, m: &syn::ExprMethodCall, under_try: bool) -> Option<Expr> {
        let name = m.method.to_string();
        if !matches!(name.as_str(), "unzip" | "collect" | "fold" | "sum" | "any" | "all" | "position" | "find" | "find_map" | "count" | "for_each" | "product" | "max" | "min" | "max_by" | "min_by") {
            return None;
        }
        if matches!(name.as_str(), "max" | "min") && !m.args.is_empty() {
            return None;
        }
        if !self.is_chain(&m.receiver) {
            return None;
        }
        let k = self.new_loop();
        let save = std::mem::replace(&mut self.in_try, under_try);
        let Some(it) = self.parse_iter(k, &m.receiver, false) else { self.unsupported("iterator chain", m) };
        self.in_try = save;
        let acc = id(&format!("_acc{k}"));
        let turbo = m.turbofish.as_ref().map(|t| t.to_token_stream().to_string()).unwrap_or_default();
        Some(match name.as_str() {
            "collect" => {
                if under_try || turbo.contains("Result") {
                    if !under_try {
                        let er = id(&format!("_err{k}"));
                        return Some(self.emit_loop(
                            k,
                            it,
                            Some(parse_quote!(#er.is_none())),
                            vec![self.vec_decl(k, &acc), parse_quote!(let mut #er: Option<E_> = None;)],
                            |_, item| {
                                vec![
                                    parse_quote!(let _item: Result<_, E_> = #item;),
                                    parse_quote!(__split__!();),
                                    parse_quote!(match _item { Ok(_ok) => { #acc.push(_ok); } Err(_e) => { #er = Some(_e); } }),
                                ]
                            },
                            Some(parse_quote!((match #er { None => Ok(#acc), Some(_e) => Err(_e) }))),
                        ));
                    }
                    self.emit_loop(k, it, None, vec![self.vec_decl(k, &acc)], |_, item| {
                        vec![
                            parse_quote!(let _item: Result<_, E_> = #item;),
                            parse_quote!(__split__!();),
                            parse_quote!(let _ok = _item?;),
                            parse_quote!(#acc.push(_ok);),
                        ]
                    }, Some(parse_quote!(#acc)))
                } else {
                    self.emit_loop(k, it, None, vec![self.vec_decl(k, &acc)], |_, item| {
                        vec![parse_quote!(let _item = #item;), parse_quote!(__split__!();), parse_quote!(#acc.push(_item);)]
                    }, Some(parse_quote!(#acc)))
                }
            }
            "sum" if under_try || turbo.contains("Result") => {
                let mut pre: Vec<Stmt> = vec![parse_quote!(let mut #acc = R::int(0);)];
                if under_try {
                    return Some(self.emit_loop(k, it, None, pre, |_, item| {
                        vec![
                            parse_quote!(let _item: Result<_, E_> = #item;),
                            parse_quote!(__split__!();),
                            parse_quote!(let _ok = _item?;),
                            parse_quote!(#acc = #acc + _ok;),
                        ]
                    }, Some(parse_quote!(#acc))));
                }
                let er = id(&format!("_err{k}"));
                pre.push(parse_quote!(let mut #er: Option<E_> = None;));
                self.emit_loop(k, it, Some(parse_quote!(#er.is_none())), pre, |_, item| {
                    vec![
                        parse_quote!(let _item: Result<_, E_> = #item;),
                        parse_quote!(__split__!();),
                        parse_quote!(match _item { Ok(_ok) => { #acc = #acc + _ok; } Err(_e) => { #er = Some(_e); } }),
                    ]
                }, Some(parse_quote!((match #er { None => Ok(#acc), Some(_e) => Err(_e) }))))
            }
            "unzip" => {
                let (a2, b2) = (id(&format!("_acc{k}a")), id(&format!("_acc{k}b")));
                let decl = vec![self.vec_decl_of(&format!("{k}a"), &a2), self.vec_decl_of(&format!("{k}b"), &b2)];
                self.emit_loop(k, it, None, decl, |_, item| {
                    let mut s = bind(&parse_quote!((_itema, _itemb)), &item);
                    s.push(parse_quote!(__split__!();));
                    s.push(parse_quote!(#a2.push(_itema);));
                    s.push(parse_quote!(#b2.push(_itemb);));
                    s
                }, Some(parse_quote!((#a2, #b2))))
            }
            "sum" | "product" => {
                let st = self.spec.get("sumtype").unwrap_or("R".into());
                let one = if name == "sum" { "0" } else { "1" };
                let z: Expr = if st == "R" { let l: syn::LitInt = syn::parse_str(one).unwrap(); parse_quote!(R::int(#l)) } else { syn::parse_str(&format!("{one}{st}")).unwrap() };
                let op: syn::BinOp = if name == "sum" { parse_quote!(+) } else { parse_quote!(*) };
                let int = st != "R";
                self.emit_loop(k, it, None, vec![parse_quote!(let mut #acc = #z;)], |_, item| {
                    let item = match &item {
                        Expr::Reference(r) if int => (*r.expr).clone(),
                        _ => item,
                    };
                    vec![parse_quote!(let _item = #item;), parse_quote!(__split__!();), parse_quote!(#acc = #acc #op _item;)]
                }, Some(parse_quote!(#acc)))
            }
            "count" => self.emit_loop(k, it, None, vec![parse_quote!(let mut #acc: usize = 0;)], |_, _| {
                vec![parse_quote!(__split__!();), parse_quote!(#acc = #acc + 1;)]
            }, Some(parse_quote!(#acc))),
            "fold" => {
                let mut init = m.args[0].clone();
                self.visit_expr_mut(&mut init);
                let Expr::Closure(c) = peel(&m.args[1]).clone() else { self.unsupported("fold", m) };
                let (pa, px) = (c.inputs[0].clone(), c.inputs[1].clone());
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                self.emit_loop(k, it, None, vec![parse_quote!(let mut #acc = #init;)], |_, item| {
                    let mut s = bind(&px, &item);
                    s.push(parse_quote!(__split__!();));
                    let b = bind(&pa, &parse_quote!(#acc));
                    s.push(parse_quote!(#acc = { #(#b)* #body };));
                    s
                }, Some(parse_quote!(#acc)))
            }
            "any" | "all" => {
                let g = self.closure1(&m.args[0]);
                let any = name == "any";
                let (init, stop): (Expr, Expr) =
                    if any { (parse_quote!(false), parse_quote!(!#acc)) } else { (parse_quote!(true), parse_quote!(#acc)) };
                self.emit_loop(k, it, Some(stop), vec![parse_quote!(let mut #acc = #init;)], |_, item| {
                    let c = g(item);
                    vec![parse_quote!(let _item = #c;), parse_quote!(__split__!();), parse_quote!(#acc = _item;)]
                }, Some(parse_quote!(#acc)))
            }
            "position" => {
                let g = self.closure1(&m.args[0]);
                let i = id(&format!("_i{k}"));
                self.emit_loop(k, it, Some(parse_quote!(#acc.is_none())), vec![parse_quote!(let mut #acc: Option<usize> = None;)], |_, item| {
                    let c = g(item);
                    vec![parse_quote!(let _item = #c;), parse_quote!(__split__!();), parse_quote!(if _item { #acc = Some(#i - 1); })]
                }, Some(parse_quote!(#acc)))
            }
            "find_map" => {
                let g = self.closure1(&m.args[0]);
                self.emit_loop(k, it, Some(parse_quote!(#acc.is_none())), vec![self.opt_decl(k, &acc)], |_, item| {
                    let c = g(item);
                    vec![parse_quote!(let _item = #c;), parse_quote!(__split__!();), parse_quote!(if _item.is_some() { #acc = _item; })]
                }, Some(parse_quote!(#acc)))
            }
            "find" => {
                // the closure gets a reference to the item
                let Expr::Closure(c) = peel(&m.args[0]).clone() else { self.unsupported("find", m) };
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let binds = bind(&c.inputs[0], &parse_quote!(&_item));
                self.emit_loop(k, it, Some(parse_quote!(#acc.is_none())), vec![self.opt_decl(k, &acc)], |_, item| {
                    vec![
                        parse_quote!(let _item = #item;),
                        parse_quote!(let _found = { #(#binds)* #body };),
                        parse_quote!(__split__!();),
                        parse_quote!(if _found { #acc = Some(_item); }),
                    ]
                }, Some(parse_quote!(#acc)))
            }
            "max" | "min" => {
                // the last maximum, the first minimum
                let max = name == "max";
                let ge: Expr = if max { parse_quote!(*_item >= *_old) } else { parse_quote!(*_item < *_old) };
                self.emit_loop(k, it, None, vec![self.opt_decl(k, &acc)], |_, item| {
                    vec![
                        parse_quote!(let _item = #item;),
                        parse_quote!(__split__!();),
                        parse_quote!(#acc = match #acc { None => Some(_item), Some(_old) => if #ge { Some(_item) } else { Some(_old) } };),
                    ]
                }, Some(parse_quote!(#acc)))
            }
            "max_by" | "min_by" => {
                let Expr::Closure(c) = peel(&m.args[0]).clone() else { self.unsupported("comparison", m) };
                if c.inputs.len() != 2 {
                    self.unsupported("comparison", m);
                }
                let mut body = (*c.body).clone();
                self.visit_expr_mut(&mut body);
                let mut binds = bind(&c.inputs[0], &parse_quote!(&_old));
                binds.extend(bind(&c.inputs[1], &parse_quote!(&_item)));
                let (old, new): (Expr, Expr) = if name == "max_by" { (parse_quote!(_old), parse_quote!(_item)) } else { (parse_quote!(_item), parse_quote!(_old)) };
                self.emit_loop(k, it, None, vec![self.opt_decl(k, &acc)], |_, item| {
                    vec![
                        parse_quote!(let _item = #item;),
                        parse_quote!(__split__!();),
                        parse_quote!(#acc = match #acc { None => Some(_item), Some(_old) => { let _c = { #(#binds)* #body }; match _c { Ordering::Greater => Some(#old), _ => Some(#new) } } };),
                    ]
                }, Some(parse_quote!(#acc)))
            }
            _ => self.unsupported("sink", m),
        })
    }

    fn is_chain(&self, e: &Expr) -> bool {
        match peel(e) {
            Expr::Range(_) => true,
            Expr::Path(p) => {
                let n = p.to_token_stream().to_string();
                self.iters.contains(&n) || self.lazy.contains_key(&n)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if self.iterfn(m).is_some() {
                    return true;
                }
                match n.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "windows" => true,
                    "values" | "into_values" | "into_keys" => m.args.is_empty() && is_place(peel(&m.receiver)),
                    "flat_map" | "chain" | "enumerate" | "skip" | "take" | "rev" | "copied" | "cloned" | "zip" | "map" | "filter" => self.is_chain(&m.receiver),
                    _ => false,
                }
            }
            _ => false,
        }
    }

    // ---- inlining of helpers that carry no contract ----------------------------------------

    fn inline_call(&mut self, fname: &str, recv_self: bool, args: Vec<Expr>, under_try: bool) -> Option<Expr> {
        if self.spec.words("noinline").contains(&fname.to_string()) || self.cfg.known.contains(fname) {
            return None;
        }
        if self.inlined.iter().filter(|x| x.as_str() == fname).count() > 6 {
            return None;
        }
        let f = if recv_self {
            find::find_any_method(self.files, &self.spec.file, &self.selfname(), fname)?
        } else {
            find::find_fn(self.files, &self.spec.file, fname)?.0
        };
        let mut block = (*f.block).clone();
        let mut hr = HasReturn(false, false);
        hr.visit_block_mut(&mut block);
        if hr.0 || (hr.1 && !under_try) {
            return None;
        }
        let mut stmts: Vec<Stmt> = vec![];
        let mut params = vec![];
        for a in f.sig.inputs.iter() {
            if let syn::FnArg::Typed(t) = a {
                params.push(((*t.pat).clone(), (*t.ty).clone()));
            }
        }
        if params.len() != args.len() {
            return None;
        }
        for ((p, ty), a) in params.into_iter().zip(args) {
            // a parameter that is passed under its own name needs no binding
            if p.to_token_stream().to_string() == a.to_token_stream().to_string() {
                continue;
            }
            if matches!(ty, syn::Type::ImplTrait(_)) {
                stmts.push(parse_quote!(let #p = #a;));
            } else {
                stmts.push(parse_quote!(let #p: #ty = #a;));
            }
        }
        self.inlined.push(fname.to_string());
        self.visit_block_mut(&mut block);
        stmts.extend(block.stmts);
        Some(parse_quote!({ #(#stmts)* }))
    }

    fn selfname(&self) -> String {
        let k = &self.spec.kind;
        if k.first().map(|s| s == "impl").unwrap_or(false) {
            let s = k[1..].join(" ");
            let h = s.rsplit_once("::").map(|(a, _)| a.to_string()).unwrap_or_default();
            let t = h.split_once(" for ").map(|(_, b)| b.to_string()).unwrap_or(h);
            return t.split('<').next().unwrap().trim().to_string();
        }
        String::new()
    }

    // ---- option / result combinators -------------------------------------------------------

    fn combinator(&mut self, m: &syn::ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let nargs = m.args.len();
        let mut recv = (*m.receiver).clone();
        let is_fn = |e: &Expr| matches!(peel(e), Expr::Closure(_) | Expr::Path(_));
        match (name.as_str(), nargs) {
            ("map", 1) if is_fn(&m.args[0]) => {
                self.visit_expr_mut(&mut recv);
                let g = self.closure1(&m.args[0]);
                let b = g(parse_quote!(_x));
                if self.spec.has("resultmap") {
                    return Some(parse_quote!((match #recv { Ok(_x) => Ok(#b), Err(_e) => Err(_e) })));
                }
                Some(parse_quote!((match #recv { Some(_x) => Some(#b), None => None })))
            }
            ("filter", 1) if is_fn(&m.args[0]) => {
                self.visit_expr_mut(&mut recv);
                let g = self.closure1(&m.args[0]);
                let b = g(parse_quote!(&_x));
                Some(parse_quote!((match #recv { Some(_x) => if #b { Some(_x) } else { None }, None => None })))
            }
            ("and_then", 1) if is_fn(&m.args[0]) => {
                self.visit_expr_mut(&mut recv);
                let g = self.closure1(&m.args[0]);
                let b = g(parse_quote!(_x));
                Some(parse_quote!((match #recv { Some(_x) => #b, None => None })))
            }
            ("map_or", 2) => {
                self.visit_expr_mut(&mut recv);
                let mut d = m.args[0].clone();
                self.visit_expr_mut(&mut d);
                let g = self.closure1(&m.args[1]);
                let b = g(parse_quote!(_x));
                Some(parse_quote!((match #recv { Some(_x) => #b, None => #d })))
            }
            ("map_or_else", 2) => {
                self.visit_expr_mut(&mut recv);
                let Expr::Closure(c) = peel(&m.args[0]).clone() else { return None };
                let mut d = (*c.body).clone();
                self.visit_expr_mut(&mut d);
                let g = self.closure1(&m.args[1]);
                let b = g(parse_quote!(_x));
                Some(parse_quote!((match #recv { Some(_x) => #b, None => #d })))
            }
            ("is_some_and", 1) | ("is_none_or", 1) => {
                self.visit_expr_mut(&mut recv);
                let g = self.closure1(&m.args[0]);
                let b = g(parse_quote!(_x));
                let d: Expr = if name == "is_some_and" { parse_quote!(false) } else { parse_quote!(true) };
                Some(parse_quote!((match #recv { Some(_x) => #b, None => #d })))
            }
            ("map_err", 1) => {
                self.visit_expr_mut(&mut recv);
                Some(parse_quote!(map_err_(#recv)))
            }
            ("ok_or_else", 1) | ("ok_or", 1) => {
                self.visit_expr_mut(&mut recv);
                let kept = self.cfg.keep_err.iter().any(|k| m.args[0].to_token_stream().to_string().contains(k));
                if kept {
                    let mut a = match peel(&m.args[0]) {
                        Expr::Closure(c) => (*c.body).clone(),
                        o => o.clone(),
                    };
                    self.visit_expr_mut(&mut a);
                    return Some(parse_quote!((match #recv { Some(_x) => Ok(_x), None => Err(#a) })));
                }
                Some(parse_quote!(ok_or_(#recv)))
            }
            ("unwrap_or_else", 1) => {
                self.visit_expr_mut(&mut recv);
                let Expr::Closure(c) = peel(&m.args[0]).clone() else { return None };
                if !c.inputs.is_empty() {
                    return None;
                }
                let mut d = (*c.body).clone();
                self.visit_expr_mut(&mut d);
                Some(parse_quote!((match #recv { Some(_x) => _x, None => #d })))
            }
            ("transpose", 0) => {
                self.visit_expr_mut(&mut recv);
                Some(parse_quote!(transpose_(#recv)))
            }
            ("expect", 1) => {
                self.visit_expr_mut(&mut recv);
                Some(parse_quote!(#recv.unwrap()))
            }
            ("unwrap_or_default", 0) => None,
            _ => None,
        }
    }

    fn is_err_path(&self, p: &syn::Path) -> bool {
        let n = p.segments.len();
        if n < 2 {
            return false;
        }
        let e = p.segments[n - 2].ident.to_string();
        e.ends_with("Error") && !self.cfg.keep_err.contains(&e)
    }

    /// A panic must be unreachable, or (section `stop COND`) happen only when COND holds and then does not return.
    fn panic_expr(&self) -> Expr {
        if self.spec.has("stop") { parse_quote!(__stop__!()) } else { parse_quote!(vpanic()) }
    }

    /// The chain behind a call of a method that returns an iterator.
    fn iterfn(&self, m: &syn::ExprMethodCall) -> Option<Expr> {
        if !m.args.is_empty() {
            return None;
        }
        let n = m.method.to_string();
        let c: Vec<_> = self.cfg.iterfns.iter().filter(|(_, _, x)| *x == n).collect();
        let (file, head) = match c.as_slice() {
            [] => return None,
            [(f, h, _)] => (f, h),
            _ => {
                // several types have a method of this name: section `iterof METHOD TYPE` picks one
                // section `iterof WORD TYPE`: the receiver was bound to an expression that calls WORD
                let Expr::Path(p) = peel(&m.receiver) else { return None };
                let b = self.lets.get(&p.to_token_stream().to_string())?.clone();
                let words: Vec<&str> = b.split_whitespace().collect();
                let l = self.spec.get("iterof").unwrap_or_default();
                let want = l.lines().filter_map(|l| l.trim().split_once(' ')).find(|(a, _)| words.contains(a)).map(|(_, b)| b.trim().to_string())?;
                c.iter().find(|(_, h, _)| *h == want).map(|(f, h, _)| (f, h))?
            }
        };
        let (f, _, _) = find::find_method(self.files, file, head, &n)?;
        let [Stmt::Expr(e, None)] = f.block.stmts.as_slice() else { self.unsupported("iterator method", m) };
        let mut e = e.clone();
        struct S(Expr);
        impl VisitMut for S {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Path(p) = e {
                    if p.path.is_ident("self") {
                        *e = self.0.clone();
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        S((*m.receiver).clone()).visit_expr_mut(&mut e);
        Some(e)
    }

    fn macro_expr(&mut self, m: &syn::Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(self.panic_expr()),
            // log output (tracing) is dropped; its arguments have no effect on the result
            "warn" | "info" | "debug" | "trace" | "error" => Some(parse_quote!({})),
            "assert" | "debug_assert" => {
                let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                let args = m.parse_body_with(parser).ok()?;
                let mut c = args[0].clone();
                self.visit_expr_mut(&mut c);
                { let p = self.panic_expr(); Some(parse_quote!(if !(#c) { #p })) }
            }
            "assert_eq" | "debug_assert_eq" => {
                let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                let args = m.parse_body_with(parser).ok()?;
                let (mut a, mut b) = (args[0].clone(), args[1].clone());
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                { let p = self.panic_expr(); Some(parse_quote!(if !(#a == #b) { #p })) }
            }
            "matches" => {
                struct M(Expr, syn::Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e: Expr = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        Ok(M(e, p, g))
                    }
                }
                let M(mut e, p, g) = m.parse_body().ok()?;
                self.visit_expr_mut(&mut e);
                Some(match g {
                    Some(mut g) => {
                        self.visit_expr_mut(&mut g);
                        parse_quote!((match #e { #p if #g => true, _ => false }))
                    }
                    None => parse_quote!((match #e { #p => true, _ => false })),
                })
            }
            "vec" => {
                let ts = m.tokens.clone();
                let arr: Result<Expr, _> = syn::parse2(quote!([#ts]));
                match arr.ok()? {
                    Expr::Repeat(r) => {
                        let (mut e, mut n) = (*r.expr, *r.len);
                        self.visit_expr_mut(&mut e);
                        self.visit_expr_mut(&mut n);
                        Some(parse_quote!(vec![#e; #n]))
                    }
                    Expr::Array(a) => {
                        let mut v: Vec<Expr> = a.elems.into_iter().collect();
                        for e in v.iter_mut() {
                            self.visit_expr_mut(e);
                        }
                        if v.is_empty() {
                            Some(parse_quote!(Vec::new()))
                        } else {
                            Some(parse_quote!(vec![#(#v),*]))
                        }
                    }
                    _ => None,
                }
            }
            "format" => Some(parse_quote!(opaque_string())),
            _ => None,
        }
    }
}

/// Does the expression contain `?` outside nested closures?
fn has_try(e: &Expr) -> bool {
    let mut h = HasReturn(false, false);
    let mut e = e.clone();
    h.visit_expr_mut(&mut e);
    h.1
}

/// Rewrite the body of a closure that returns a Result so that `?` becomes a match: only `?` in `let x = E?;`,
/// in a final `Ok(E?)` and in the arms of a final match are understood.
fn untry(e: &Expr) -> Option<Expr> {
    if !has_try(e) {
        return Some(e.clone());
    }
    match peel(e) {
        Expr::Block(b) => {
            let st = b.block.stmts.clone();
            fn go(st: &[Stmt]) -> Option<Expr> {
                match st {
                    [] => None,
                    [Stmt::Expr(x, None)] => untry(x),
                    [Stmt::Local(l), rest @ ..] => {
                        let r = go(rest)?;
                        let init = l.init.as_ref()?;
                        if init.diverge.is_some() {
                            return None;
                        }
                        let p = &l.pat;
                        if let Expr::Try(t) = peel(&init.expr) {
                            if has_try(&t.expr) {
                                return None;
                            }
                            let x = &t.expr;
                            return Some(parse_quote!((match #x { Ok(_t) => { let #p = _t; #r } Err(_e) => Err(_e) })));
                        }
                        if has_try(&init.expr) {
                            return None;
                        }
                        Some(parse_quote!({ #l #r }))
                    }
                    _ => None,
                }
            }
            go(&st)
        }
        Expr::Call(c) if c.args.len() == 1 => {
            let Expr::Path(p) = &*c.func else { return None };
            if p.path.segments.last()?.ident != "Ok" {
                return None;
            }
            let Expr::Try(t) = peel(&c.args[0]) else { return None };
            if has_try(&t.expr) {
                return None;
            }
            let x = &t.expr;
            Some(parse_quote!((match #x { Ok(_v) => Ok(_v), Err(_e) => Err(_e) })))
        }
        // `x?.f().g()`
        Expr::MethodCall(m) => {
            fn split(e: &Expr) -> Option<(Expr, Expr)> {
                match e {
                    Expr::Try(t) if !has_try(&t.expr) => Some(((*t.expr).clone(), parse_quote!(_t))),
                    Expr::MethodCall(m) if !m.args.iter().any(has_try) => {
                        let (x, r) = split(&m.receiver)?;
                        let mut m = m.clone();
                        m.receiver = Box::new(r);
                        Some((x, Expr::MethodCall(m)))
                    }
                    _ => None,
                }
            }
            let (x, r) = split(&Expr::MethodCall(m.clone()))?;
            Some(parse_quote!((match #x { Ok(_t) => #r, Err(_e) => Err(_e) })))
        }
        Expr::Match(m) => {
            if has_try(&m.expr) {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                a.body = Box::new(untry(&a.body)?);
            }
            Some(Expr::Match(m))
        }
        Expr::If(i) => {
            if has_try(&i.cond) {
                return None;
            }
            let t = untry(&Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }))?;
            let f = untry(&i.else_branch.as_ref()?.1)?;
            let c = &i.cond;
            Some(parse_quote!(if #c { #t } else { #f }))
        }
        _ => None,
    }
}

fn is_log(m: &syn::Macro) -> bool {
    matches!(
        m.path.segments.last().unwrap().ident.to_string().as_str(),
        "debug" | "info" | "warn" | "trace" | "error" | "println" | "eprintln"
    )
}

/// Split generated statements at the `__split__!()` marker.
fn split_binds(stmts: Vec<Stmt>) -> (Vec<Stmt>, Vec<Stmt>) {
    let pos = stmts.iter().position(|s| matches!(s, Stmt::Macro(m) if m.mac.path.is_ident("__split__")));
    match pos {
        Some(p) => {
            let mut a = stmts;
            let b = a.split_off(p + 1);
            a.pop();
            (a, b)
        }
        None => (vec![], stmts),
    }
}

/// Bind a pattern to an expression, splitting tuples so only simple lets remain.
fn bind(pat: &syn::Pat, x: &Expr) -> Vec<Stmt> {
    match pat {
        syn::Pat::Wild(_) => vec![],
        syn::Pat::Paren(p) => bind(&p.pat, x),
        syn::Pat::Type(t) => {
            let (p, ty) = (&t.pat, &t.ty);
            if let syn::Pat::Ident(_) = &**p {
                vec![parse_quote!(let #p: #ty = #x;)]
            } else {
                bind(p, x)
            }
        }
        syn::Pat::Reference(r) => {
            let y: Expr = match peel(x) {
                Expr::Reference(rr) => (*rr.expr).clone(),
                o => parse_quote!(*#o),
            };
            bind(&r.pat, &y)
        }
        syn::Pat::Tuple(t) => match peel(x) {
            Expr::Tuple(xt) if xt.elems.len() == t.elems.len() => {
                t.elems.iter().zip(xt.elems.iter()).flat_map(|(p, e)| bind(p, e)).collect()
            }
            Expr::Reference(r) => {
                let inner = &r.expr;
                t.elems
                    .iter()
                    .enumerate()
                    .flat_map(|(i, p)| {
                        let ix = syn::Index::from(i);
                        let e: Expr = parse_quote!(&#inner.#ix);
                        bind(p, &e)
                    })
                    .collect()
            }
            _ => vec![parse_quote!(let #t = #x;)],
        },
        p => vec![parse_quote!(let #p = #x;)],
    }
}

fn bind_mut(pat: &syn::Pat, x: &Expr, subs: &mut Vec<(String, Expr)>) -> Vec<Stmt> {
    match (pat, peel(x)) {
        (syn::Pat::Tuple(t), Expr::Tuple(xt)) if t.elems.len() == xt.elems.len() => {
            let mut v = vec![];
            for (p, e) in t.elems.iter().zip(xt.elems.iter()) {
                v.extend(bind_mut(p, e, subs));
            }
            v
        }
        (syn::Pat::Ident(p), Expr::Index(_)) => {
            subs.push((p.ident.to_string(), x.clone()));
            vec![]
        }
        _ => bind(pat, x),
    }
}

/// `_iK` -> `(_iK - 1)` inside a place expression.
fn reindex(mut p: Expr, k: usize) -> Expr {
    struct V(String);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Path(pp) = e {
                if pp.path.is_ident(&self.0) {
                    let i = pp.clone();
                    *e = parse_quote!(#i - 1);
                    return;
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V(format!("_i{k}")).visit_expr_mut(&mut p);
    p
}

impl VisitMut for Desugar<'_> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = Vec::with_capacity(b.stmts.len());
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Macro(m) = &s {
                if is_log(&m.mac) {
                    continue;
                }
                if m.mac.path.segments.last().unwrap().ident.to_string().starts_with("__") {
                    out.push(s);
                    continue;
                }
                let semi = m.semi_token;
                match self.macro_expr(&m.mac) {
                    Some(e) => out.push(Stmt::Expr(e, semi)),
                    None => self.unsupported("macro", &m.mac),
                }
                continue;
            }
            if let Stmt::Local(l) = &mut s {
                l.attrs.clear();
                // a queue is collected like a vector
                if let (syn::Pat::Type(t), Some(init)) = (&l.pat, &mut l.init) {
                    let queue = matches!(&*t.ty, syn::Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "VecDeque"));
                    if queue && matches!(peel(&init.expr), Expr::MethodCall(m) if m.method == "collect") {
                        let e = init.expr.clone();
                        *init.expr = parse_quote!(vec_to_deque(#e));
                    }
                }
                if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let n = p.ident.to_string();
                    self.lets.insert(n.clone(), init.expr.to_token_stream().to_string());
                    self.lazy.remove(&n);
                    // a lazy iterator chain is expanded where it is consumed
                    if let Expr::MethodCall(m) = peel(&init.expr) {
                        if self.is_chain(&init.expr) && !matches!(m.method.to_string().as_str(), "iter" | "iter_mut" | "into_iter" | "windows") {
                            self.lazy.insert(n, (*init.expr).clone());
                            continue;
                        }
                    }
                }
                if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &mut l.init) {
                    if let Expr::MethodCall(m) = peel(&init.expr).clone() {
                        let r = peel(&m.receiver).clone();
                        if m.args.is_empty() && (m.method == "iter" || m.method == "into_iter") && is_place(&r) && matches!(r, Expr::Path(_) | Expr::Field(_)) {
                            self.iters.insert(p.ident.to_string());
                            let by_ref = self.by_ref(&r.to_token_stream().to_string());
                            *init.expr = if by_ref { r } else { parse_quote!(&#r) };
                        }
                    }
                }
            }
            if let Stmt::Item(syn::Item::Use(_)) = &s {
                continue;
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }

    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        visit_mut::visit_pat_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let f = f.clone();
                *e = self.for_loop(&f);
                return;
            }
            Expr::While(w) => {
                let k = self.new_loop();
                if matches!(&*w.cond, Expr::Let(_)) {
                    let Expr::Let(l) = (*w.cond).clone() else { unreachable!() };
                    let (pat, mut ex) = (l.pat, *l.expr);
                    self.visit_expr_mut(&mut ex);
                    let mut body = w.body.clone();
                    self.visit_block_mut(&mut body);
                    let (lm, top, end, bef, aft) =
                        (self.mk("loop", k), self.mk("top", k), self.mk("end", k), self.mk("before", k), self.mk("after", k));
                    let st = body.stmts;
                    *e = parse_quote!({ #bef loop { #lm match #ex { #pat => { #top #(#st)* #end } _ => { break; } } } #aft });
                    return;
                }
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (lm, top, end, bef, aft) =
                    (self.mk("loop", k), self.mk("top", k), self.mk("end", k), self.mk("before", k), self.mk("after", k));
                let c = &w.cond;
                let mut st = w.body.stmts.clone();
                if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() {
                    *semi = Some(Default::default());
                }
                *e = parse_quote!({ #bef while #c { #lm #top #(#st)* #end } #aft });
                return;
            }
            Expr::Loop(_) => {
                self.unsupported("loop", e);
            }
            Expr::Try(t) => {
                let mut inner = peel(&t.expr).clone();
                // peel map_err
                while let Expr::MethodCall(m) = &inner {
                    if m.method == "map_err" {
                        if let Expr::MethodCall(m2) = peel(&m.receiver) {
                            if m2.method == "collect" {
                                inner = Expr::MethodCall(m2.clone());
                                continue;
                            }
                        }
                    }
                    break;
                }
                if let Expr::MethodCall(m) = &inner {
                    let res_sum = m.method == "sum" && m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().contains("Result")).unwrap_or(false);
                    if m.method == "collect" || res_sum {
                        if let Some(x) = self.sink(m, true) {
                            *e = x;
                            return;
                        }
                    }
                    if let Expr::Path(p) = &*m.receiver {
                        if p.path.is_ident("self") {
                            let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                            let save = self.loops;
                            let _ = save;
                            let n = m.method.to_string();
                            if !self.cfg.known.contains(&n) {
                                for a in args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                if let Some(b) = self.inline_call(&n, true, args, true) {
                                    *e = parse_quote!((#b)?);
                                    return;
                                }
                            }
                        }
                    }
                }
                if let Expr::Call(c) = &inner {
                    if let Expr::Path(p) = &*c.func {
                        if let Some(i) = p.path.get_ident() {
                            let n = i.to_string();
                            if !self.cfg.known.contains(&n) && n.chars().next().unwrap().is_lowercase() {
                                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                                for a in args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                if let Some(b) = self.inline_call(&n, false, args, true) {
                                    *e = parse_quote!((#b)?);
                                    return;
                                }
                            }
                        }
                    }
                }
                self.visit_expr_mut(&mut t.expr);
                return;
            }
            Expr::Match(m) if self.spec.has("dropvariant") => {
                let dv = self.spec.words("dropvariant");
                m.arms.retain(|a| {
                    let p = match &a.pat {
                        syn::Pat::Struct(p) => Some(&p.path),
                        syn::Pat::TupleStruct(p) => Some(&p.path),
                        syn::Pat::Path(p) => Some(&p.path),
                        _ => None,
                    };
                    !p.and_then(|p| p.segments.last()).map(|s| dv.contains(&s.ident.to_string())).unwrap_or(false)
                });
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if m.method == "size_hint" && self.is_chain(&m.receiver) {
                    let r = &m.receiver;
                    *e = parse_quote!((#r.len(), Some(#r.len())));
                    return;
                }
                if let Some(x) = self.sink(&m, false) {
                    *e = x;
                    return;
                }
                if let Some(x) = self.combinator(&m) {
                    *e = x;
                    return;
                }
                if let Expr::Path(p) = &*m.receiver {
                    let n = m.method.to_string();
                    if p.path.is_ident("self") && !self.cfg.known.contains(&n) {
                        let mut args: Vec<Expr> = m.args.iter().cloned().collect();
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        if let Some(b) = self.inline_call(&n, true, args, false) {
                            *e = b;
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    let n = m.method.to_string();
                    if let Some((_, b)) = self.cfg.pathmap.iter().find(|(a, _)| *a == format!(".{n}")) {
                        let b = b.trim_start_matches('.').to_string();
                        if let Some(f) = b.strip_prefix("fn ") {
                            // method -> free function taking the receiver by value
                            let f: syn::Path = syn::parse_str(f).unwrap();
                            let (r, a) = (&m.receiver, &m.args);
                            *e = if a.is_empty() { parse_quote!(#f(#r)) } else { parse_quote!(#f(#r, #a)) };
                        } else if let Some(f) = b.strip_prefix("& fn ") {
                            let f: syn::Path = syn::parse_str(f).unwrap();
                            let (r, a) = (&m.receiver, &m.args);
                            *e = if a.is_empty() { parse_quote!(#f(&#r)) } else { parse_quote!(#f(&#r, #a)) };
                        } else if let Some(f) = b.strip_prefix("&mut fn ") {
                            let f: syn::Path = syn::parse_str(f).unwrap();
                            let (r, a) = (&m.receiver, &m.args);
                            *e = if a.is_empty() { parse_quote!(#f(&mut #r)) } else { parse_quote!(#f(&mut #r, #a)) };
                        } else {
                            m.method = id(&b);
                            m.turbofish = None;
                        }
                    }
                }
                return;
            }
            Expr::Binary(b) => {
                // `&a - 1`: std's operators on references give the value
                if let (Expr::Reference(r), Expr::Lit(l), syn::BinOp::Sub(_) | syn::BinOp::Add(_) | syn::BinOp::Mul(_)) = (&*b.left, &*b.right, &b.op) {
                    if matches!(l.lit, syn::Lit::Int(_)) {
                        b.left = r.expr.clone();
                    }
                }
                // comparisons of tuples: Verus compares tuples only in specifications
                if matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_))
                    && (matches!(peel(&b.left), Expr::Tuple(_)) || matches!(peel(&b.right), Expr::Tuple(_)))
                {
                    let ne = matches!(b.op, syn::BinOp::Ne(_));
                    let mut l = (*b.left).clone();
                    let mut r = (*b.right).clone();
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    *e = if ne { parse_quote!(!tuple_eq(#l, #r)) } else { parse_quote!(tuple_eq(#l, #r)) };
                    return;
                }
                use syn::BinOp::*;
                let op: Option<syn::BinOp> = match b.op {
                    AddAssign(_) => Some(parse_quote!(+)),
                    SubAssign(_) => Some(parse_quote!(-)),
                    MulAssign(_) => Some(parse_quote!(*)),
                    DivAssign(_) => Some(parse_quote!(/)),
                    RemAssign(_) => Some(parse_quote!(%)),
                    _ => None,
                };
                if let Some(op) = op {
                    let mut l = (*b.left).clone();
                    let mut r = (*b.right).clone();
                    self.visit_expr_mut(&mut l);
                    self.visit_expr_mut(&mut r);
                    if let Expr::Unary(syn::ExprUnary { op: syn::UnOp::Deref(_), expr, .. }) = peel(&l) {
                        if matches!(peel(expr), Expr::MethodCall(_)) {
                            // `*place() op= value`: the value is evaluated first (operands of primitive types)
                            let p = &**expr;
                            *e = parse_quote!({ let _v = #r; let _p = #p; *_p = *_p #op _v; });
                            return;
                        }
                    }
                    if let Expr::Field(syn::ExprField { base, member, .. }) = peel(&l) {
                        if matches!(peel(base), Expr::MethodCall(_)) {
                            // `place().field op= value`
                            let p = &**base;
                            *e = parse_quote!({ let _v = #r; let _p = #p; _p.#member = _p.#member #op _v; });
                            return;
                        }
                    }
                    if !is_place(&l) && !matches!(&l, Expr::Index(_)) {
                        self.unsupported("compound assignment target", &l);
                    }
                    let r: Expr = if matches!(r, Expr::Path(_) | Expr::Lit(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_)) {
                        r
                    } else {
                        parse_quote!((#r))
                    };
                    *e = parse_quote!(#l = #l #op #r);
                    return;
                }
                if !self.bitwise {
                    match b.op {
                        BitAnd(_) => b.op = parse_quote!(&&),
                        BitOr(_) => b.op = parse_quote!(||),
                        _ => {}
                    }
                }
            }
            Expr::Lit(l) => {
                if let syn::Lit::Float(f) = &l.lit {
                    let Some((n, d)) = float_frac(&f.to_string()) else { self.unsupported("float literal", l) };
                    if n > u64::MAX as u128 || d > u64::MAX as u128 {
                        self.unsupported("float literal", l);
                    }
                    let nl = syn::LitInt::new(&format!("{n}"), Span::call_site());
                    let dl = syn::LitInt::new(&format!("{d}"), Span::call_site());
                    *e = if d == 1 { parse_quote!(R::int(#nl)) } else { parse_quote!(R::frac(#nl, #dl)) };
                }
                return;
            }
            Expr::Cast(c) => {
                let ty = c.ty.to_token_stream().to_string();
                self.visit_expr_mut(&mut c.expr);
                let inner = peel(&c.expr).clone();
                if ty == "f64" {
                    *e = parse_quote!(to_r(#inner));
                } else if self.floatcast {
                    let f = id(&format!("cast_{ty}"));
                    *e = parse_quote!(#f(#inner));
                }
                return;
            }
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                match self.macro_expr(&mac) {
                    Some(x) => *e = x,
                    None => self.unsupported("macro", &mac),
                }
                return;
            }
            Expr::Path(p) => {
                if let Some(i) = p.path.get_ident() {
                    let s = i.to_string();
                    if self.cfg.float_consts.contains(&s) {
                        *e = parse_quote!(#i());
                        return;
                    }
                }
                let full = p.path.to_token_stream().to_string().replace(' ', "");
                if let Some((_, b)) = self.cfg.pathmap.iter().find(|(a, _)| *a == full) {
                    *e = syn::parse_str(b).unwrap_or_else(|_| fail(format!("mappath {b}")));
                    return;
                }
                if p.path.segments.len() == 2 && p.path.segments[0].ident == "f64" {
                    let c = p.path.segments[1].ident.clone();
                    let s = c.to_string();
                    *e = if s.chars().all(|c| c.is_uppercase() || c == '_') { parse_quote!(R::#c()) } else { parse_quote!(R::#c) };
                    return;
                }
                // `std::f64::MAX` and friends
                if p.path.segments.len() >= 3 && p.path.segments.iter().any(|s| s.ident == "f64") {
                    let c = p.path.segments.last().unwrap().ident.clone();
                    *e = parse_quote!(R::#c());
                    return;
                }
                if self.is_err_path(&p.path) {
                    *e = parse_quote!(E_ {});
                    return;
                }
                return;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let mut q = p.path.clone();
                    for sg in q.segments.iter_mut() {
                        sg.arguments = syn::PathArguments::None;
                    }
                    let base = q.to_token_stream().to_string().replace(' ', "");
                    if c.args.len() == 1 && self.cfg.pathmap.iter().any(|(a, b)| *a == base && b == "identity") {
                        let mut a = c.args[0].clone();
                        self.visit_expr_mut(&mut a);
                        *e = a;
                        return;
                    }
                    if self.is_err_path(&p.path) {
                        *e = parse_quote!(E_ {});
                        return;
                    }
                    // turbofish on Ok/Some/Err constructors is dropped
                    if p.path.segments.len() == 1 {
                        let i = p.path.segments[0].ident.clone();
                        let s = i.to_string();
                        if matches!(s.as_str(), "Ok" | "Err" | "Some") {
                            c.func = parse_quote!(#i);
                        } else if s.chars().next().unwrap().is_lowercase() && !self.cfg.known.contains(&s) {
                            let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            if let Some(b) = self.inline_call(&s, false, args, false) {
                                *e = b;
                                return;
                            }
                        }
                    }
                    if p_is(&c.func, &["Self", ""]) {
                        // Self::helper(..)
                        if let Expr::Path(p) = &*c.func {
                            let s = p.path.segments[1].ident.to_string();
                            if s.chars().next().unwrap().is_lowercase() && !self.cfg.known.contains(&s) {
                                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                                for a in args.iter_mut() {
                                    self.visit_expr_mut(a);
                                }
                                if let Some(b) = self.inline_call(&s, true, args, false) {
                                    *e = b;
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            Expr::Struct(s) => {
                if self.is_err_path(&s.path) {
                    *e = parse_quote!(E_ {});
                    return;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_expr_closure_mut(&mut self, c: &mut syn::ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

fn p_is(e: &Expr, segs: &[&str]) -> bool {
    if let Expr::Path(p) = e {
        return p.path.segments.len() == segs.len()
            && p.path.segments.iter().zip(segs).all(|(a, b)| b.is_empty() || a.ident == b);
    }
    false
}
