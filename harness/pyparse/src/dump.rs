//! Walks the typed view of a syntax tree with its public accessors and writes it in the notation that
//! lib/astref.py writes for CPython's `ast`.
use parsa_python_cst::*;
use std::fmt::Write;

pub struct D {
    pub o: String,
}

/// Whether the raw tree contains anything that marks a syntax error.
pub fn has_errors(tree: &parsa_python::PyTree) -> bool {
    use parsa_python::{NonterminalType, PyNodeType};
    tree.nodes().any(|n| {
        matches!(
            n.type_(),
            PyNodeType::ErrorNonterminal(_)
                | PyNodeType::ErrorTerminal(_)
                | PyNodeType::ErrorKeyword
                | PyNodeType::Nonterminal(NonterminalType::broken_scope)
        )
    })
}

pub fn dump(tree: &Tree) -> String {
    let mut d = D { o: String::new() };
    d.o.push_str("(Module");
    let f = tree.root();
    d.doc(f.docstring());
    d.stmts(f.iter_stmt_likes());
    d.o.push(')');
    d.o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

macro_rules! w { ($d:expr, $($a:tt)*) => { write!($d.o, $($a)*).unwrap() } }

impl D {
    fn at(&mut self, kind: &str, s: CodeIndex, e: CodeIndex) {
        w!(self, "({kind}@{s}-{e}");
    }
    fn from(&mut self, kind: &str, s: CodeIndex) {
        w!(self, "({kind}@{s}");
    }
    fn end(&mut self) {
        self.o.push(')');
    }
    fn sp(&mut self) {
        self.o.push(' ');
    }
    fn doc(&mut self, s: Option<Strings>) {
        match s {
            None => (),
            Some(s) => match s.as_python_string().as_str() {
                Some(t) => w!(self, " doc={}", hex(t.as_bytes())),
                None => (),
            },
        }
    }
    fn none(&mut self) {
        self.o.push_str(" -");
    }

    // ---- statements -----------------------------------------------------
    fn block(&mut self, b: Block) {
        self.o.push_str(" {");
        self.stmts(b.iter_stmt_likes());
        self.o.push('}');
    }
    fn stmts<'a>(&mut self, it: StmtLikeIterator<'a>) {
        for s in it {
            self.stmt(s.node);
        }
    }
    fn stmt(&mut self, s: StmtLikeContent) {
        use StmtLikeContent::*;
        if matches!(s, Newline) {
            return;
        }
        self.sp();
        match s {
            Assignment(a) => {
                let k = a.start();
                match a.unpack() {
                    AssignmentContent::Normal(t, r) => {
                        self.from("Assign", k);
                        for t in t {
                            self.sp();
                            self.target(t);
                        }
                        self.right(r);
                    }
                    AssignmentContent::WithAnnotation(t, ann, r) => {
                        self.from("AnnAssign", k);
                        self.sp();
                        self.target(t);
                        self.sp();
                        self.expr(ann.expression());
                        match r {
                            Some(r) => self.right(r),
                            None => self.none(),
                        }
                    }
                    AssignmentContent::AugAssign(t, op, r) => {
                        self.from("AugAssign", k);
                        let (inplace, i) = op.magic_methods();
                        w!(self, " {} {} {} {} {} ", op.operand(), inplace, i.magic_method, i.reverse_magic_method, i.operand);
                        self.target(t);
                        self.right(r);
                    }
                }
            }
            StarExpressions(e) => {
                self.from("Expr", e.start());
                self.sp();
                self.star_exprs(e);
            }
            YieldExpr(y) => {
                self.from("Expr", y.start());
                self.sp();
                self.yield_(y);
            }
            ReturnStmt(r) => {
                self.at("Return", r.start(), r.end());
                match r.star_expressions() {
                    Some(e) => {
                        self.sp();
                        self.star_exprs(e)
                    }
                    None => self.none(),
                }
            }
            RaiseStmt(r) => {
                self.at("Raise", r.start(), r.end());
                match r.unpack() {
                    None => {
                        self.none();
                        self.none();
                    }
                    Some((a, b)) => {
                        self.sp();
                        self.expr(a);
                        self.opt(b);
                    }
                }
            }
            ImportFrom(i) => {
                self.at("ImportFrom", i.start(), i.end());
                let (level, dotted) = i.level_with_dotted_name();
                w!(self, " {level} ");
                match dotted {
                    None => self.o.push('-'),
                    Some(d) => {
                        let s = dotted_import(d);
                        self.o.push_str(&s)
                    }
                }
                match i.unpack_targets() {
                    ImportFromTargets::Star(_) => self.o.push_str(" (alias *)"),
                    ImportFromTargets::Iterator(it) => {
                        for t in it {
                            let (n, d) = t.unpack();
                            w!(self, " (alias@{}-{} {} {})", t.start(), t.end(), n.as_code(), d.as_code());
                            if d.index() != t.name_def().index() {
                                self.o.push_str("!name_def");
                            }
                        }
                    }
                }
            }
            ImportName(i) => {
                self.at("Import", i.start(), i.end());
                for d in i.iter_dotted_as_names() {
                    w!(self, " (alias@{}-{} ", d.start(), d.end());
                    match d.unpack() {
                        DottedAsNameContent::Simple(n, rest) => {
                            self.o.push_str(n.as_code());
                            if let Some(r) = rest {
                                w!(self, ".{}", dotted_import(r));
                            }
                            w!(self, " -");
                        }
                        DottedAsNameContent::WithAs(d, n) => {
                            w!(self, "{} {}", dotted_import(d), n.as_code())
                        }
                    }
                    self.end();
                }
            }
            PassStmt(p) => self.at("Pass", p.start(), p.end()),
            BreakStmt(p) => self.at("Break", p.start(), p.end()),
            ContinueStmt(p) => self.at("Continue", p.start(), p.end()),
            GlobalStmt(g) => {
                self.at("Global", g.start(), g.end());
                for n in g.iter_name_defs() {
                    w!(self, " {}", n.as_code());
                }
            }
            NonlocalStmt(g) => {
                self.at("Nonlocal", g.start(), g.end());
            }
            AssertStmt(a) => {
                self.at("Assert", a.start(), a.end());
                let (x, y) = a.unpack();
                self.sp();
                self.expr(x);
                self.opt(y);
            }
            DelStmt(d) => {
                self.at("Delete", d.start(), d.end());
                self.del_targets(d.targets());
            }
            TypeAlias(t) => {
                self.at("TypeAlias", t.start(), t.end());
                let (n, p, e) = t.unpack();
                w!(self, " {}", n.as_code());
                self.type_params(p);
                self.sp();
                self.expr(e);
            }
            FunctionDef(f) => return self.func(f, false, None),
            ClassDef(c) => return self.class(c, None),
            Decorated(d) => {
                // both directions must agree
                let fwd: Vec<_> = d.decorators().iter().map(|x| x.index()).collect();
                let mut rev: Vec<_> = d.decorators().iter_reverse().map(|x| x.index()).collect();
                rev.reverse();
                if fwd != rev {
                    self.o.push_str("!decorator-order");
                }
                match d.decoratee() {
                    Decoratee::ClassDef(c) => self.class(c, Some(d.decorators())),
                    Decoratee::FunctionDef(f) => self.func(f, false, Some(d.decorators())),
                    Decoratee::AsyncFunctionDef(f) => self.func(f, true, Some(d.decorators())),
                }
                return;
            }
            AsyncStmt(a) => match a.unpack() {
                AsyncStmtContent::FunctionDef(f) => return self.func(f, true, None),
                AsyncStmtContent::ForStmt(f) => {
                    self.from("AsyncFor", a.start());
                    self.for_(f);
                }
                AsyncStmtContent::WithStmt(x) => {
                    self.from("AsyncWith", a.start());
                    self.with(x, true);
                }
            },
            IfStmt(i) => {
                self.from("If", i.start());
                for b in i.iter_blocks() {
                    match b {
                        IfBlockType::If(e, b) => {
                            self.sp();
                            self.named(e);
                            self.block(b);
                        }
                        IfBlockType::Else(b) => self.block(b.block()),
                    }
                }
            }
            WhileStmt(s) => {
                self.from("While", s.start());
                let (e, b, el) = s.unpack();
                self.sp();
                self.named(e);
                self.block(b);
                self.else_(el);
            }
            ForStmt(f) => {
                self.from("For", f.start());
                self.for_(f);
            }
            TryStmt(t) => {
                self.from("Try", t.start());
                for b in t.iter_blocks() {
                    match b {
                        TryBlockType::Try(b) => self.block(b),
                        TryBlockType::Except(e) => {
                            let (x, b) = e.unpack();
                            w!(self, " (except@{}", e.start());
                            match x {
                                Some(x) => self.except(x),
                                None => {
                                    self.none();
                                    self.none();
                                }
                            }
                            self.block(b);
                            self.end();
                        }
                        TryBlockType::ExceptStar(e) => {
                            let (x, b) = e.unpack();
                            w!(self, " (except*@{}", e.start());
                            self.except(x);
                            self.block(b);
                            self.end();
                        }
                        TryBlockType::Else(e) => {
                            self.o.push_str(" else");
                            self.block(e.block())
                        }
                        TryBlockType::Finally(e) => {
                            self.o.push_str(" finally");
                            self.block(e.block())
                        }
                    }
                }
            }
            WithStmt(x) => {
                self.from("With", x.start());
                self.with(x, false);
            }
            MatchStmt(m) => {
                self.from("Match", m.start());
                let (subj, cases) = m.unpack();
                self.sp();
                match subj.unpack() {
                    SubjectExprContent::NamedExpression(n) => self.named(n),
                    SubjectExprContent::Tuple(it) => {
                        if subj.as_code().trim_end().starts_with('*') && it.clone().count() == 1 && !subj.as_code().trim_end().ends_with(',') {
                            self.o.push_str("?lenient:bare star subject");
                        }
                        self.o.push_str("(Tuple");
                        self.stars(it);
                        self.end();
                    }
                }
                for c in cases {
                    let (p, g, b) = c.unpack();
                    self.o.push_str(" (case ");
                    match p {
                        CasePattern::Pattern(p) => self.pattern(p),
                        CasePattern::OpenSequencePattern(s) => {
                            if s.iter().count() == 1 && !s.as_code().trim_end().ends_with(',') {
                                self.o.push_str("?lenient:bare star pattern");
                            }
                            self.at("PSeq", s.start(), s.end());
                            for i in s.iter() {
                                self.seq_item(i);
                            }
                            self.end();
                        }
                    }
                    match g {
                        Some(g) => {
                            self.sp();
                            self.named(g.named_expr())
                        }
                        None => self.none(),
                    }
                    self.block(b);
                    self.end();
                }
            }
            Error(_) => self.o.push_str("(ERROR"),
            BrokenScope(_) => self.o.push_str("(BROKEN"),
            Newline => unreachable!(),
        }
        self.end();
    }
    fn opt(&mut self, e: Option<Expression>) {
        match e {
            Some(e) => {
                self.sp();
                self.expr(e)
            }
            None => self.none(),
        }
    }
    fn right(&mut self, r: AssignmentRightSide) {
        self.sp();
        match r {
            AssignmentRightSide::YieldExpr(y) => self.yield_(y),
            AssignmentRightSide::StarExpressions(s) => self.star_exprs(s),
        }
    }
    fn yield_(&mut self, y: YieldExpr) {
        match y.unpack() {
            YieldExprContent::None => {
                self.at("Yield", y.start(), y.end());
                self.none();
            }
            YieldExprContent::StarExpressions(s) => {
                self.at("Yield", y.start(), y.end());
                self.sp();
                self.star_exprs(s);
            }
            YieldExprContent::YieldFrom(f) => {
                self.at("YieldFrom", y.start(), y.end());
                self.sp();
                self.expr(f.expression());
            }
        }
        self.end();
    }
    fn except(&mut self, x: ExceptExpression) {
        self.sp();
        match x.unpack() {
            ExceptExpressionContent::WithNameDef(e, n) => {
                self.expr(e);
                w!(self, " {}", n.as_code());
            }
            ExceptExpressionContent::Expressions(es) => {
                self.expressions(es);
                self.none();
            }
        }
    }
    fn expressions(&mut self, es: Expressions) {
        let v: Vec<_> = es.iter().collect();
        if v.len() == 1 && es.as_code().len() == v[0].as_code().len() {
            self.expr(v[0]);
        } else {
            self.at("Tuple", es.start(), es.end());
            for e in v {
                self.sp();
                self.expr(e);
            }
            self.end();
        }
    }
    fn else_(&mut self, e: Option<ElseBlock>) {
        if let Some(e) = e {
            self.block(e.block());
        }
    }
    fn for_(&mut self, f: ForStmt) {
        let (t, e, b, el) = f.unpack();
        self.sp();
        self.target(t.as_target());
        self.sp();
        self.star_exprs(e);
        self.block(b);
        self.else_(el);
    }
    fn with(&mut self, x: WithStmt, is_async: bool) {
        let (items, b) = x.unpack();
        for i in items.iter() {
            let (e, t) = i.unpack();
            if i.in_async_with_stmt() != is_async {
                self.o.push_str("!in_async_with_stmt");
            }
            self.o.push_str(" (item ");
            self.expr(e);
            match t {
                Some(t) => {
                    self.sp();
                    self.target(t)
                }
                None => self.none(),
            }
            self.end();
        }
        self.block(b);
    }
    fn decorators(&mut self, d: Option<Decorators>) {
        if let Some(d) = d {
            for x in d.iter() {
                self.o.push_str(" @");
                self.named(x.named_expression());
            }
        }
    }
    fn type_params(&mut self, p: Option<TypeParams>) {
        let Some(p) = p else { return };
        for t in p.iter() {
            let (n, k) = t.unpack();
            if n.index() != t.name_def().index() {
                self.o.push_str("!type_param.name_def");
            }
            let kind = match k {
                TypeParamKind::TypeVar(..) => "TypeVar",
                TypeParamKind::TypeVarTuple(..) => "TypeVarTuple",
                TypeParamKind::ParamSpec(..) => "ParamSpec",
            };
            w!(self, " [{kind}@{}-{} {}", t.start(), t.end(), n.as_code());
            match k {
                TypeParamKind::TypeVar(b, d) => {
                    self.opt(b.map(|b| b.expression()));
                    if let Some(d) = d {
                        self.o.push_str(" =");
                        self.expr(d.expression());
                    }
                }
                TypeParamKind::TypeVarTuple(d) => {
                    if let Some(d) = d {
                        self.o.push_str(" =");
                        match d.unpack() {
                            StarAnnotationContent::Expression(e) => self.expr(e),
                            StarAnnotationContent::StarExpression(s) => self.star_expr(s),
                        }
                    }
                }
                TypeParamKind::ParamSpec(d) => {
                    if let Some(d) = d {
                        self.o.push_str(" =");
                        self.expr(d.expression());
                    }
                }
            }
            self.o.push(']');
        }
    }
    fn func(&mut self, f: FunctionDef, is_async: bool, dec: Option<Decorators>) {
        w!(self, "({}", if is_async { "AsyncFunctionDef" } else { "FunctionDef" });
        let (n, tp, params, ret, body) = f.unpack();
        w!(self, "@{}", if is_async { u32::MAX } else { f.start() });
        w!(self, " {}", n.as_code());
        let mut bad = vec![];
        if f.name_def().index() != n.index() || f.name().as_code() != n.as_code() {
            bad.push("name_def");
        }
        if f.parent().is_async() != is_async {
            bad.push("is_async");
        }
        if f.maybe_decorated().is_some() != dec.is_some() {
            bad.push("maybe_decorated");
        }
        if f.return_annotation().map(|r| r.index()) != ret.map(|r| r.index()) {
            bad.push("return_annotation");
        }
        if f.type_params().map(|r| r.index()) != tp.map(|r| r.index()) {
            bad.push("type_params");
        }
        if f.params().index() != params.index() {
            bad.push("params");
        }
        if f.body().index() != body.index() {
            bad.push("body");
        }
        for b in bad {
            w!(self, "!{b}");
        }
        if f.is_typed() {
            self.o.push_str(" typed");
        }
        self.decorators(dec);
        self.type_params(tp);
        self.params(params.iter());
        self.o.push_str(" ->");
        match ret {
            Some(r) => self.expr(r.expression()),
            None => self.o.push('-'),
        }
        let colon = f.end_position_of_colon();
        let from = ret.map_or(params.end(), |r| r.end());
        if colon <= from || colon > body.start() || f.as_code().as_bytes()[(colon - f.start() - 1) as usize] != b':' {
            self.o.push_str("!end_position_of_colon");
        }
        self.doc(f.docstring());
        self.block(body);
        self.end();
    }
    fn class(&mut self, c: ClassDef, dec: Option<Decorators>) {
        self.from("ClassDef", c.start());
        let (tp, args, body) = c.unpack();
        w!(self, " {}", c.name_def().as_code());
        if c.type_params().map(|t| t.index()) != tp.map(|t| t.index()) {
            self.o.push_str("!type_params");
        }
        if c.arguments().map(|t| t.index()) != args.map(|t| t.index()) {
            self.o.push_str("!arguments");
        }
        if c.block().index() != body.index() {
            self.o.push_str("!block");
        }
        if c.maybe_decorated().is_some() != dec.is_some() {
            self.o.push_str("!maybe_decorated");
        }
        self.decorators(dec);
        self.type_params(tp);
        if let Some(a) = args {
            self.args(a);
        }
        self.doc(c.docstring());
        self.block(body);
        self.end();
    }
    fn params<'a>(&mut self, it: ParamIterator<'a>) {
        for p in it {
            let k = match p.kind() {
                ParamKind::PositionalOnly => "PosOnly",
                ParamKind::PositionalOrKeyword => "Arg",
                ParamKind::Star => "Star",
                ParamKind::KeywordOnly => "KwOnly",
                ParamKind::StarStar => "StarStar",
            };
            w!(self, " ({k}@{} {}", p.name_def().start(), p.name_def().as_code());
            match p.annotation().map(|a| a.maybe_starred()) {
                None => self.none(),
                Some(Ok(s)) => {
                    self.sp();
                    self.star_expr(s)
                }
                Some(Err(e)) => {
                    self.sp();
                    self.expr(e)
                }
            }
            self.opt(p.default());
            self.end();
        }
    }
    fn del_targets(&mut self, t: DelTargets) {
        for x in t.iter() {
            match x {
                DelTarget::Target(t) => {
                    self.sp();
                    self.target(t)
                }
                // brackets do not matter to a del statement
                DelTarget::DelTargets(d) => self.del_targets(d),
            }
        }
    }

    // ---- targets --------------------------------------------------------
    fn def(&mut self, n: NameDef) {
        w!(self, "(Def@{}-{} {})", n.start(), n.end(), n.as_code());
    }
    fn target(&mut self, t: Target) {
        match t {
            Target::Tuple(it) => {
                self.o.push_str("(TTuple");
                for t in it {
                    self.sp();
                    self.target(t);
                }
                self.end();
            }
            Target::Name(n) => self.def(n),
            Target::NameExpression(p, n) => {
                self.at("TAttr", p.start(), p.end());
                self.sp();
                self.primary_target_first(p);
                w!(self, " {}", n.as_code());
                match p.second() {
                    PrimaryContent::Attribute(x) if x.as_code() == n.as_code() => (),
                    _ => self.o.push_str("!second"),
                }
                self.end();
            }
            Target::IndexExpression(p) => {
                self.at("TIndex", p.start(), p.end());
                self.sp();
                self.primary_target_first(p);
                self.primary_content(p.second());
                self.end();
            }
            Target::Starred(s) => {
                self.at("TStar", s.start(), s.end());
                self.sp();
                self.target(s.as_target());
                self.end();
            }
        }
    }
    fn primary_target_first(&mut self, p: PrimaryTarget) {
        match p.first() {
            PrimaryTargetOrAtom::Atom(a) => self.atom(a),
            PrimaryTargetOrAtom::PrimaryTarget(p) => self.primary_like(p.start(), p.end(), p.second(), |s| s.primary_target_first(p)),
        }
    }

    // ---- expressions ----------------------------------------------------
    fn star_exprs(&mut self, s: StarExpressions) {
        match s.unpack() {
            StarExpressionContent::Expression(e) => self.expr(e),
            StarExpressionContent::StarExpression(e) => self.star_expr(e),
            StarExpressionContent::Tuple(t) => {
                self.at("Tuple", t.start(), t.end());
                for x in t.iter() {
                    self.sp();
                    self.star_like(x);
                }
                self.end();
            }
        }
    }
    fn star_expr(&mut self, e: StarExpression) {
        self.at("Starred", e.start(), e.end());
        self.sp();
        self.part(e.expression_part());
        self.end();
    }
    fn star_like(&mut self, x: StarLikeExpression) {
        match x {
            StarLikeExpression::Expression(e) => self.expr(e),
            StarLikeExpression::NamedExpression(n) => self.named(n),
            StarLikeExpression::StarExpression(s) => self.star_expr(s),
            StarLikeExpression::StarNamedExpression(s) => {
                self.at("Starred", s.start(), s.end());
                self.sp();
                self.part(s.expression_part());
                self.end();
            }
        }
    }
    fn stars<'a>(&mut self, it: StarLikeExpressionIterator<'a>) {
        for x in it {
            self.sp();
            self.star_like(x);
        }
    }
    fn named(&mut self, n: NamedExpression) {
        match n.unpack() {
            NamedExpressionContent::Expression(e) => self.expr(e),
            NamedExpressionContent::Walrus(x) => {
                self.at("Walrus", x.start(), x.end());
                let (d, e) = x.unpack();
                self.sp();
                self.def(d);
                self.sp();
                self.expr(e);
                self.end();
            }
        }
    }
    pub fn expr(&mut self, e: Expression) {
        match e.unpack() {
            ExpressionContent::ExpressionPart(p) => self.part(p),
            ExpressionContent::Ternary(t) => {
                let (a, b, c) = t.unpack();
                self.at("IfExp", t.start(), t.end());
                self.sp();
                self.part(a);
                self.sp();
                self.part(b);
                self.sp();
                self.expr(c);
                self.end();
            }
            ExpressionContent::Lambda(l) => {
                self.at("Lambda", l.start(), l.end());
                let (p, e) = l.unpack();
                self.params(p);
                self.o.push_str(" :");
                self.expr(e);
                self.end();
            }
        }
    }
    fn binop(&mut self, p: ExpressionPart, o: Operation) {
        self.at("BinOp", p.start(), p.end());
        w!(self, " {} {} {} ", o.infos.operand, o.infos.magic_method, o.infos.reverse_magic_method);
        self.part(o.left);
        self.sp();
        self.part(o.right);
        self.end();
    }
    fn two(&mut self, k: &str, p: ExpressionPart, l: ExpressionPart, r: ExpressionPart) {
        let _ = p;
        w!(self, "({k} ");
        self.part(l);
        self.sp();
        self.part(r);
        self.end();
    }
    fn part(&mut self, p: ExpressionPart) {
        match p {
            ExpressionPart::Atom(a) => self.atom(a),
            ExpressionPart::Primary(x) => self.primary(x),
            ExpressionPart::AwaitPrimary(a) => {
                self.at("Await", a.start(), a.end());
                self.sp();
                self.part(a.primary());
                self.end();
            }
            ExpressionPart::Power(x) => self.binop(p, x.as_operation()),
            ExpressionPart::Term(x) => self.binop(p, x.as_operation()),
            ExpressionPart::Sum(x) => self.binop(p, x.as_operation()),
            ExpressionPart::ShiftExpr(x) => self.binop(p, x.as_operation()),
            ExpressionPart::BitwiseAnd(x) => self.binop(p, x.as_operation()),
            ExpressionPart::BitwiseXor(x) => self.binop(p, x.as_operation()),
            ExpressionPart::BitwiseOr(x) => self.binop(p, x.as_operation()),
            ExpressionPart::Factor(f) => {
                self.at("Unary", f.start(), f.end());
                let (k, e) = f.unpack();
                w!(self, " {} ", k.as_code());
                self.part(e);
                self.end();
            }
            ExpressionPart::Inversion(i) => {
                self.at("Unary", i.start(), i.end());
                self.o.push_str(" not ");
                self.part(i.expression());
                self.end();
            }
            ExpressionPart::Conjunction(c) => {
                let (l, r) = c.unpack();
                self.two("And", p, l, r);
            }
            ExpressionPart::Disjunction(c) => {
                let (l, r) = c.unpack();
                self.two("Or", p, l, r);
            }
            ExpressionPart::Comparisons(c) => {
                self.at("Compare", c.start(), c.end());
                for x in c.iter() {
                    use ComparisonContent::*;
                    let op = match x {
                        Equals(..) => "==",
                        NotEquals(..) => "!=",
                        Is(..) => "is",
                        IsNot(..) => "is not",
                        In(..) => "in",
                        NotIn(..) => "not in",
                        Ordering(o) => {
                            let want = match o.infos.operand {
                                "<" => ("__lt__", "__gt__"),
                                "<=" => ("__le__", "__ge__"),
                                ">" => ("__gt__", "__lt__"),
                                ">=" => ("__ge__", "__le__"),
                                _ => ("", ""),
                            };
                            if (o.infos.magic_method, o.infos.reverse_magic_method) != want {
                                self.o.push_str("!magic");
                            }
                            o.infos.operand
                        }
                    };
                    w!(self, " [{op} ");
                    self.part(x.left());
                    self.sp();
                    self.part(x.right());
                    self.o.push(']');
                }
                self.end();
            }
        }
    }
    fn primary(&mut self, p: Primary) {
        self.primary_like(p.start(), p.end(), p.second(), |s| match p.first() {
            PrimaryOrAtom::Atom(a) => s.atom(a),
            PrimaryOrAtom::Primary(p) => s.primary(p),
        });
        if let PrimaryContent::GetItem(SliceType::Slices(_) | SliceType::Slice(_) | SliceType::NamedExpression(_)) = p.second() {
            let PrimaryContent::GetItem(a) = p.second() else { unreachable!() };
            if a.index() != p.expect_slice().index() {
                self.o.push_str("!expect_slice");
            }
        }
    }
    fn primary_like(&mut self, s: CodeIndex, e: CodeIndex, c: PrimaryContent, first: impl FnOnce(&mut Self)) {
        match c {
            PrimaryContent::Attribute(_) => self.at("Attr", s, e),
            PrimaryContent::Execution(_) => self.at("Call", s, e),
            PrimaryContent::GetItem(_) => self.at("Index", s, e),
        }
        self.sp();
        first(self);
        self.primary_content(c);
        self.end();
    }
    fn primary_content(&mut self, c: PrimaryContent) {
        match c {
            PrimaryContent::Attribute(n) => w!(self, " {}", n.as_code()),
            PrimaryContent::Execution(d) => match d {
                ArgumentsDetails::None => (),
                ArgumentsDetails::Comprehension(c) => {
                    self.o.push_str(" (Gen");
                    self.comp(c);
                    self.end();
                }
                ArgumentsDetails::Node(a) => self.args(a),
            },
            PrimaryContent::GetItem(s) => {
                self.sp();
                match s {
                    SliceType::Slices(s) => {
                        self.o.push_str("(Tuple");
                        for x in s.iter() {
                            self.sp();
                            match x {
                                SliceContent::Slice(s) => self.slice(s),
                                SliceContent::NamedExpression(n) => self.named(n),
                                SliceContent::StarredExpression(s) => self.starred(s),
                            }
                        }
                        self.end();
                    }
                    SliceType::Slice(s) => self.slice(s),
                    SliceType::NamedExpression(n) => self.named(n),
                    SliceType::StarredExpression(s) => {
                        self.o.push_str("(Tuple ");
                        self.starred(s);
                        self.end();
                    }
                }
            }
        }
    }
    fn starred(&mut self, s: StarredExpression) {
        self.at("Starred", s.start(), s.end());
        self.sp();
        self.expr(s.expression());
        self.end();
    }
    fn slice(&mut self, s: Slice) {
        self.at("Slice", s.start(), s.end());
        let (a, b, c) = s.unpack();
        self.opt(a);
        self.opt(b);
        self.opt(c);
        self.end();
    }
    fn args(&mut self, a: Arguments) {
        let all: Vec<_> = a.iter().collect();
        for x in &all {
            match x {
                Argument::Positional(n) => {
                    self.sp();
                    self.named(*n)
                }
                Argument::Star(s) => {
                    self.sp();
                    self.starred(*s)
                }
                _ => (),
            }
        }
        for x in &all {
            match x {
                Argument::Keyword(k) => {
                    let (n, e) = k.unpack();
                    w!(self, " (kw@{}-{} {} ", k.start(), k.end(), n.as_code());
                    self.expr(e);
                    self.end();
                }
                Argument::StarStar(s) => {
                    w!(self, " (kw@{}-{} ** ", s.start(), s.end());
                    self.expr(s.expression());
                    self.end();
                }
                _ => (),
            }
        }
    }
    fn comp(&mut self, c: Comprehension) {
        let (e, f) = c.unpack();
        self.sp();
        self.named(e);
        self.clauses(f);
    }
    fn clauses(&mut self, f: ForIfClauses) {
        for c in f.iter() {
            let (k, s) = match c {
                ForIfClause::Async(s) => ("async", s),
                ForIfClause::Sync(s) => ("for", s),
            };
            w!(self, " [{k} ");
            let (t, e, ifs) = s.unpack();
            self.target(t.as_target());
            self.sp();
            self.part(e);
            for i in ifs {
                self.o.push_str(" if ");
                self.part(i.expression_part());
            }
            self.o.push(']');
        }
    }
    fn number(&mut self, s: CodeIndex, e: CodeIndex, n: UnpackedNumber) {
        match n {
            UnpackedNumber::Int(i) => w!(self, "(Int@{s}-{e} {})", i.parse()),
            UnpackedNumber::Float(f) => w!(self, "(Float@{s}-{e} {:016x})", float(f.as_code())),
            UnpackedNumber::Complex(c) => {
                w!(self, "(Complex@{s}-{e} {:016x})", float(c.as_code().trim_end_matches(['j', 'J'])))
            }
        }
    }
    fn strings(&mut self, s: Strings) {
        match s.as_python_string().as_str() {
            Some(t) => w!(self, "(Str@{}-{} {})", s.start(), s.end(), hex(t.as_bytes())),
            None => {
                w!(self, "(FStr@{}-{}", s.start(), s.end());
                for x in s.iter() {
                    if let StringType::FString(f) = x {
                        for c in f.iter_content() {
                            self.fcontent(c);
                        }
                    }
                }
                self.end();
            }
        }
    }
    fn fcontent(&mut self, c: FStringContent) {
        if let FStringContent::FStringExpr(e) = c {
            let (x, spec) = e.unpack();
            self.o.push_str(" (Fmt ");
            self.expressions(x);
            if let Some(s) = spec {
                self.o.push_str(" :");
                for c in s.iter_content() {
                    self.fcontent(c);
                }
            }
            self.end();
        }
    }
    fn bytes(&mut self, b: Bytes) {
        match b.maybe_single_bytes_literal() {
            Some(l) => w!(self, "(Bytes@{}-{} {})", b.start(), b.end(), hex(&l.content_as_bytes())),
            None => w!(self, "(Bytes@{}-{} *)", b.start(), b.end()),
        }
    }
    fn atom(&mut self, a: Atom) {
        let (s, e) = (a.start(), a.end());
        match a.unpack() {
            AtomContent::Name(n) => w!(self, "(Name@{s}-{e} {})", n.as_code()),
            AtomContent::Int(i) => self.number(s, e, UnpackedNumber::Int(i)),
            AtomContent::Float(f) => self.number(s, e, UnpackedNumber::Float(f)),
            AtomContent::Complex(c) => self.number(s, e, UnpackedNumber::Complex(c)),
            AtomContent::Strings(x) => self.strings(x),
            AtomContent::Bytes(b) => self.bytes(b),
            AtomContent::NoneLiteral => w!(self, "(None@{s}-{e})"),
            AtomContent::Bool(k) => w!(self, "({}@{s}-{e})", k.as_code()),
            AtomContent::Ellipsis => w!(self, "(Ellipsis@{s}-{e})"),
            AtomContent::List(l) => {
                self.at("List", s, e);
                self.stars(l.unpack());
                self.end();
            }
            AtomContent::Set(l) => {
                self.at("Set", s, e);
                self.stars(l.unpack());
                self.end();
            }
            AtomContent::Tuple(t) => {
                self.at("Tuple", s, e);
                self.stars(t.iter());
                self.end();
            }
            AtomContent::Dict(d) => {
                self.at("Dict", s, e);
                for x in d.iter_elements() {
                    match x {
                        DictElement::KeyValue(kv) => {
                            self.sp();
                            self.expr(kv.key());
                            self.o.push(':');
                            self.expr(kv.value());
                        }
                        DictElement::Star(s) => {
                            self.o.push_str(" **");
                            self.part(s.expression_part());
                        }
                    }
                }
                self.end();
            }
            AtomContent::ListComprehension(c) => {
                self.at("ListComp", s, e);
                self.comp(c);
                self.end();
            }
            AtomContent::SetComprehension(c) => {
                self.at("SetComp", s, e);
                self.comp(c);
                self.end();
            }
            AtomContent::GeneratorComprehension(c) => {
                self.o.push_str("(Gen");
                self.comp(c);
                self.end();
            }
            AtomContent::DictComprehension(c) => {
                self.at("DictComp", s, e);
                let (kv, f) = c.unpack();
                self.sp();
                self.expr(kv.key());
                self.o.push(':');
                self.expr(kv.value());
                self.clauses(f);
                self.end();
            }
            AtomContent::YieldExpr(y) => self.yield_(y),
            AtomContent::NamedExpression(n) => self.named(n),
        }
    }

    // ---- patterns -------------------------------------------------------
    fn pattern(&mut self, p: Pattern) {
        let (k, name) = p.unpack();
        match name {
            Some(n) => {
                self.at("PAs", p.start(), p.end());
                self.sp();
                self.pat_kind(k);
                w!(self, " {})", n.as_code());
            }
            None => self.pat_kind(k),
        }
    }
    fn seq_item(&mut self, i: SequencePatternItem) {
        self.sp();
        match i {
            SequencePatternItem::Entry(p) => self.pattern(p),
            SequencePatternItem::Rest(s) => {
                self.at("PStar", s.start(), s.end());
                match s.unpack() {
                    StarPatternContent::NameDef(n) => w!(self, " {})", n.as_code()),
                    StarPatternContent::WildcardPattern(_) => self.o.push_str(" _)"),
                }
            }
        }
    }
    fn dotted(&mut self, d: DottedPatternName) {
        let mut parts = vec![];
        let mut cur = d;
        let (s, e) = (d.start(), d.end());
        let first = loop {
            match cur.unpack() {
                DottedPatternNameContent::Name(n) => {
                    parts.push(n.as_code());
                    break n;
                }
                DottedPatternNameContent::DottedName(d, n) => {
                    parts.push(n.as_code());
                    cur = d;
                }
            }
        };
        if d.first_name().index() != first.index() {
            self.o.push_str("!first_name");
        }
        parts.reverse();
        w!(self, "{}@{s}-{e}", parts.join("."));
    }
    fn literal(&mut self, l: LiteralPattern) {
        self.o.push_str("(PVal ");
        match l.unpack() {
            LiteralPatternContent::Strings(s) => self.strings(s),
            LiteralPatternContent::Bytes(b) => self.bytes(b),
            LiteralPatternContent::SignedNumber(n) => {
                let (num, neg) = n.number_and_is_negated();
                let code = match &num {
                    UnpackedNumber::Int(i) => i.start(),
                    UnpackedNumber::Float(i) => i.start(),
                    UnpackedNumber::Complex(i) => i.start(),
                };
                if neg {
                    self.at("Unary", n.start(), n.end());
                    self.o.push_str(" - ");
                }
                self.number(code, n.end(), num);
                if neg {
                    self.end();
                }
            }
            LiteralPatternContent::ComplexNumber(c) => {
                let code = c.as_code().replace(' ', "");
                let split = code[1..].find(['+', '-']).unwrap_or(0) + 1;
                let imaginary = |s: &str| s.ends_with(['j', 'J']);
                if imaginary(&code[..split]) || !imaginary(&code) {
                    self.o.push_str("?lenient:complex");
                }
                self.o.push_str(&code)
            }
            LiteralPatternContent::None => self.o.push_str("None"),
            LiteralPatternContent::Bool(true) => self.o.push_str("True"),
            LiteralPatternContent::Bool(false) => self.o.push_str("False"),
        }
        self.end();
    }
    fn pat_kind(&mut self, k: PatternKind) {
        match k {
            PatternKind::NameDef(n) => w!(self, "(PName {})", n.as_code()),
            PatternKind::WildcardPattern(_) => self.o.push_str("(PAny)"),
            PatternKind::DottedName(d) => {
                self.o.push_str("(PVal ");
                self.dotted(d);
                self.end();
            }
            PatternKind::ClassPattern(c) => {
                self.at("PClass", c.start(), c.end());
                let (d, it) = c.unpack();
                self.sp();
                self.dotted(d);
                for x in it {
                    self.sp();
                    match x {
                        ParamPattern::Positional(p) => self.pattern(p),
                        ParamPattern::Keyword(k) => {
                            let (n, p) = k.unpack();
                            w!(self, "{}=", n.as_code());
                            self.pattern(p);
                        }
                    }
                }
                self.end();
            }
            PatternKind::LiteralPattern(l) => self.literal(l),
            PatternKind::GroupPattern(g) => self.pattern(g.inner()),
            PatternKind::OrPattern(o) => {
                self.at("POr", o.start(), o.end());
                for x in o.iter() {
                    self.sp();
                    self.pat_kind(x);
                }
                self.end();
            }
            PatternKind::SequencePattern(s) => {
                self.at("PSeq", s.start(), s.end());
                for i in s.iter() {
                    self.seq_item(i);
                }
                self.end();
            }
            PatternKind::MappingPattern(m) => {
                self.at("PMap", m.start(), m.end());
                for i in m.iter() {
                    self.sp();
                    match i {
                        MappingPatternItem::Entry(kv) => {
                            let (k, v) = kv.unpack();
                            match k {
                                KeyEntryInPattern::LiteralPattern(l) => self.literal(l),
                                KeyEntryInPattern::DottedName(d) => {
                                    if matches!(d.unpack(), DottedPatternNameContent::Name(_)) {
                                        self.o.push_str("?lenient:capture as key");
                                    }
                                    self.o.push_str("(PVal ");
                                    self.dotted(d);
                                    self.end();
                                }
                            }
                            self.o.push(':');
                            self.pattern(v);
                        }
                        MappingPatternItem::Rest(d) => w!(self, "**{}", d.name_def().as_code()),
                    }
                }
                self.end();
            }
        }
    }
}

fn dotted_import(d: DottedImportName) -> String {
    match d.unpack() {
        DottedImportNameContent::Name(n) => n.as_code().into(),
        DottedImportNameContent::DottedName(d, n) => format!("{}.{}", dotted_import(d), n.as_code()),
    }
}

fn float(code: &str) -> u64 {
    code.replace('_', "").parse::<f64>().map_or(0xdead, |f| f.to_bits())
}
