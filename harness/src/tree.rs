//! Trees in the shape of spec/Parser.tla.
use std::cell::Cell;

use serde_json::{json, Value};

use whitespace::ast::*;
use whitespace::environment::{SlotIndex, VarLoc};
use whitespace::source_loc::SourceLoc;

pub fn bits(f: f64) -> Value {
    json!(format!("{:016x}", f.to_bits()))
}

fn loc(l: &SourceLoc) -> Value {
    json!([l.line, l.column])
}

pub fn stmts(ss: &[Stmt]) -> Value {
    Value::Array(ss.iter().map(stmt).collect())
}

fn exprs(es: &[Expr]) -> Value {
    Value::Array(es.iter().map(expr).collect())
}

fn fun_type(t: FunctionType) -> &'static str {
    match t {
        FunctionType::PlainFunction => "Plain",
        FunctionType::Method => "Method",
        FunctionType::Initializer => "Initializer",
        FunctionType::ClassMethod => "ClassMethod",
    }
}

fn fun(head: Vec<Value>, f: &FunctionDefinition) -> Value {
    let mut v = head;
    v.push(Value::Array(
        f.parameters.iter().map(|p| json!([p.name, loc(&p.source_loc)])).collect(),
    ));
    v.push(stmts(&f.body));
    v.push(json!(fun_type(f.fun_type)));
    v.push(loc(&f.source_loc));
    Value::Array(v)
}

pub fn stmt(s: &Stmt) -> Value {
    match s {
        Stmt::Block(ss) => json!(["Block", stmts(ss)]),
        Stmt::Break(l) => json!(["Break", loc(l)]),
        Stmt::Continue(l) => json!(["Continue", loc(l)]),
        Stmt::Class(c) => {
            let sup = match &c.superclass {
                None => json!([]),
                Some(e) => match &**e {
                    Expr::Variable(n, _, l) => json!([n, loc(l)]),
                    other => json!(["?", expr(other)]),
                },
            };
            let methods: Vec<Value> =
                c.methods.iter().map(|m| fun(vec![json!(m.name)], &m.fun_def)).collect();
            json!(["Class", c.name, sup, methods, loc(&c.source_loc)])
        }
        Stmt::Expression(e) => json!(["Expression", expr(e)]),
        Stmt::Fun(f) => fun(vec![json!("Fun"), json!(f.name)], &f.fun_def),
        Stmt::If(c, t, None) => json!(["If", expr(c), stmt(t)]),
        Stmt::If(c, t, Some(e)) => json!(["If", expr(c), stmt(t), stmt(e)]),
        Stmt::Print(e) => json!(["Print", expr(e)]),
        Stmt::Return(e, l) => json!(["Return", expr(e), loc(l)]),
        Stmt::Var(n, _, e, l) => json!(["Var", n, expr(e), loc(l)]),
        Stmt::While(c, b) => json!(["While", expr(c), stmt(b)]),
        Stmt::WhileIncrement(c, b, i) => json!(["WhileInc", expr(c), stmt(b), expr(i)]),
    }
}

pub fn expr(e: &Expr) -> Value {
    match e {
        Expr::Assign(n, _, v, l) => json!(["Assign", n, expr(v), loc(l)]),
        Expr::Call(f, a, l) => json!(["Call", expr(f), exprs(a), loc(l)]),
        Expr::Binary(a, o, b, l) => {
            json!(["Binary", expr(a), format!("{o:?}"), expr(b), loc(l)])
        }
        Expr::Function(f) => fun(vec![json!("Function")], f),
        Expr::Get(o, n, l) => json!(["Get", expr(o), n, loc(l)]),
        Expr::GetIndex(o, i, l) => json!(["GetIndex", expr(o), expr(i), loc(l)]),
        Expr::Grouping(e) => json!(["Grouping", expr(e)]),
        Expr::LiteralArray(es) => json!(["Array", exprs(es)]),
        Expr::LiteralBool(true) => json!(["True"]),
        Expr::LiteralBool(false) => json!(["False"]),
        Expr::LiteralMap(m) => {
            let kv: Vec<Value> = m.iter().map(|(k, v)| json!([k, expr(v)])).collect();
            json!(["Map", kv])
        }
        Expr::LiteralNumber(f) => json!(["Num", bits(*f)]),
        Expr::LiteralNil => json!(["Nil"]),
        Expr::LiteralString(s) => json!(["Str", s]),
        Expr::Logical(a, o, b) => json!(["Logical", expr(a), format!("{o:?}"), expr(b)]),
        Expr::Set(o, n, v, l) => json!(["Set", expr(o), n, expr(v), loc(l)]),
        Expr::SetIndex(o, i, v, l) => {
            json!(["SetIndex", expr(o), expr(i), expr(v), loc(l)])
        }
        Expr::Super(_, n, l) => json!(["Super", n, loc(l)]),
        Expr::Variable(n, _, l) => json!(["Variable", n, loc(l)]),
        Expr::Unary(o, e, l) => json!(["Unary", format!("{o:?}"), expr(e), loc(l)]),
    }
}

// Bindings: [kind, name, line, column, distance, slot] for every annotated node.

struct Out(Vec<Value>);

impl Out {
    fn at(&mut self, kind: &str, name: &str, l: &SourceLoc, v: &Cell<VarLoc>) {
        let v = v.get();
        // The distance has no accessor.
        let d = (0..=u16::MAX).find(|d| VarLoc::new(*d, v.index()) == v);
        self.0.push(json!([kind, name, l.line, l.column, d, v.index()]));
    }

    fn var(&mut self, name: &str, l: &SourceLoc, s: &Cell<SlotIndex>) {
        self.0.push(json!(["var", name, l.line, l.column, 0, s.get().index()]));
    }

    fn stmts(&mut self, ss: &[Stmt]) {
        for s in ss {
            self.stmt(s);
        }
    }

    fn fun(&mut self, f: &FunctionDefinition) {
        self.stmts(&f.body);
    }

    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Block(ss) => self.stmts(ss),
            Stmt::Break(_) | Stmt::Continue(_) => (),
            Stmt::Class(c) => {
                if let Some(e) = &c.superclass {
                    self.expr(e);
                }
                for m in &c.methods {
                    self.fun(&m.fun_def);
                }
            }
            Stmt::Expression(e) | Stmt::Print(e) | Stmt::Return(e, _) => self.expr(e),
            Stmt::Fun(f) => self.fun(&f.fun_def),
            Stmt::If(c, t, e) => {
                self.expr(c);
                self.stmt(t);
                if let Some(e) = e {
                    self.stmt(e);
                }
            }
            Stmt::Var(n, s, e, l) => {
                self.var(n, l, s);
                self.expr(e);
            }
            Stmt::While(c, b) => {
                self.expr(c);
                self.stmt(b);
            }
            Stmt::WhileIncrement(c, b, i) => {
                self.expr(c);
                self.stmt(b);
                self.expr(i);
            }
        }
    }

    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Assign(n, d, v, l) => {
                self.expr(v);
                self.at("set", n, l, d);
            }
            Expr::Call(f, a, _) => {
                self.expr(f);
                a.iter().for_each(|x| self.expr(x));
            }
            Expr::Binary(a, _, b, _) | Expr::Logical(a, _, b) => {
                self.expr(a);
                self.expr(b);
            }
            Expr::Function(f) => self.fun(f),
            Expr::Get(o, _, _) | Expr::Grouping(o) | Expr::Unary(_, o, _) => self.expr(o),
            Expr::GetIndex(o, i, _) => {
                self.expr(o);
                self.expr(i);
            }
            Expr::LiteralArray(es) => es.iter().for_each(|x| self.expr(x)),
            Expr::LiteralMap(m) => m.iter().for_each(|(_, x)| self.expr(x)),
            Expr::LiteralBool(_)
            | Expr::LiteralNumber(_)
            | Expr::LiteralNil
            | Expr::LiteralString(_) => (),
            Expr::Set(o, _, v, _) => {
                self.expr(o);
                self.expr(v);
            }
            Expr::SetIndex(o, i, v, _) => {
                self.expr(o);
                self.expr(i);
                self.expr(v);
            }
            Expr::Super(d, _, l) => self.at("super", "super", l, d),
            Expr::Variable(n, d, l) => self.at("use", n, l, d),
        }
    }
}

pub fn bindings(ss: &[Stmt]) -> Value {
    let mut out = Out(Vec::new());
    out.stmts(ss);
    Value::Array(out.0)
}
