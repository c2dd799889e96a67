//! Drives the runtime under test exactly the way generated parsers do, but for a grammar chosen
//! at run time (`gram::Compiled`). Instantiated once per token factory.
use std::sync::Arc;

use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::dfa::DFA;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::PredictionContextCache;

use crate::gram::Compiled;

pub const RULE_NAMES: [&str; 48] = [
    "r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9", "r10", "r11", "r12", "r13", "r14",
    "r15", "r16", "r17", "r18", "r19", "r20", "r21", "r22", "r23", "r24", "r25", "r26", "r27",
    "r28", "r29", "r30", "r31", "r32", "r33", "r34", "r35", "r36", "r37", "r38", "r39", "r40",
    "r41", "r42", "r43", "r44", "r45", "r46", "r47",
];

antlr_rust::lazy_static! {
    pub static ref VOCAB: Box<dyn Vocabulary + Send + Sync> = {
        let lit: Vec<Option<String>> = vec![];
        let sym: Vec<Option<String>> =
            (0..64).map(|i| if i == 0 { None } else { Some(format!("T{}", i)) }).collect();
        Box::new(VocabularyImpl::new(lit.iter(), sym.iter(), None))
    };
}

/// What generated parsers keep in `lazy_static`s: shared by all parser instances (and threads).
#[derive(Clone)]
pub struct Shared {
    pub c: Arc<Compiled>,
    pub atn: Arc<ATN>,
    pub dfa: Arc<Vec<antlr_rust::RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
}
pub fn load(c: &Arc<Compiled>) -> Shared {
    let atn = Arc::new(ATNDeserializer::new(None).deserialize(c.serialized.chars()));
    Shared::cold(c, &atn)
}
impl Shared {
    pub fn cold(c: &Arc<Compiled>, atn: &Arc<ATN>) -> Shared {
        let mut dfa = vec![];
        for i in 0..atn.decision_to_state.len() {
            dfa.push(DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into());
        }
        Shared {
            c: c.clone(),
            atn: atn.clone(),
            dfa: Arc::new(dfa),
            cache: Arc::new(PredictionContextCache::new()),
        }
    }
    pub fn fresh(&self) -> Shared {
        Shared::cold(&self.c, &self.atn)
    }
    pub fn cache_len(&self) -> usize {
        self.cache.length()
    }
    pub fn dfa_states(&self) -> usize {
        self.dfa.iter().map(|d| d.read().states.len()).sum()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Sll,
    Ll,
    Exact,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub mode: Mode,
    pub bail: bool,
    pub listeners: usize,
    pub build_tree: bool,
    pub diag_listener: bool,
    pub walk: bool,
    pub labels: bool,
    /// value of predicates, by index
    pub preds: Vec<bool>,
    pub budget: u64,
    pub start_rule: usize,
    /// token stream: 0 CommonTokenStream, 1 UnbufferedTokenStream (all buffered), 2 unbuffered
    pub stream: u8,
    /// add and immediately remove a listener in the middle of the parse
    pub churn: bool,
}
impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            mode: Mode::Ll,
            bail: false,
            listeners: 0,
            build_tree: true,
            diag_listener: false,
            walk: false,
            labels: false,
            preds: vec![],
            budget: 3_000_000,
            start_rule: 0,
            stream: 0,
            churn: false,
        }
    }
}

/// see `El::Pred`
pub fn pred_value(preds: &[bool], idx: isize, at: isize) -> bool {
    let pos = if (idx / 6) % 2 == 1 { at } else { 0 };
    *preds.get(((idx % 6 + pos) % 6) as usize).unwrap_or(&true)
}
macro_rules! interp {
    ($modname:ident, $TF:ty, $mkfactory:ty) => {
        pub mod $modname {
            use std::borrow::Borrow;
            use std::cell::{Cell, RefCell};
            use std::marker::PhantomData;
            use std::rc::Rc;
            use std::sync::Arc;

            use antlr_rust::atn::INVALID_ALT;
            use antlr_rust::atn_config_set::ATNConfigSet;
            use antlr_rust::common_token_stream::CommonTokenStream;
            use antlr_rust::dfa::DFA;
            use antlr_rust::error_listener::{DiagnosticErrorListener, ErrorListener};
            use antlr_rust::error_strategy::{
                BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy,
            };
            use antlr_rust::errors::*;
            use antlr_rust::int_stream::{IntStream, EOF};
            use antlr_rust::parser::{BaseParser, ListenerId, Parser, ParserNodeType, ParserRecog};
            use antlr_rust::parser_atn_simulator::ParserATNSimulator;
            use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext};
            use antlr_rust::recognizer::{Actions, Recognizer};
            use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
            use antlr_rust::token::Token;
            #[allow(unused_imports)]
            use antlr_rust::token_factory::*;
            use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
            use antlr_rust::tree::*;
            use antlr_rust::vocabulary::Vocabulary;
            use antlr_rust::{PredictionMode, TidAble, TidExt, TokenSource};
            use bit_set::BitSet;

            use super::pred_value;
            use super::{Cfg, Mode, Shared, RULE_NAMES, VOCAB};
            use crate::gram::{Body, N};
            use crate::out::*;

            type TF<'input> = $TF;
            type Tok<'input> = <TF<'input> as TokenFactory<'input>>::Tok;
            type Inner<'input> = <TF<'input> as TokenFactory<'input>>::Inner;
            pub type Factory<'input> = $mkfactory;

            // ------------------------------------------------------------- tree nodes
            pub trait VListener<'input>: ParseTreeListener<'input, VCtxType> {
                fn enter_r(&mut self, _r: usize) {}
                fn exit_r(&mut self, _r: usize) {}
            }
            pub trait VVisitor<'input>: ParseTreeVisitor<'input, VCtxType> {
                fn visit_r(&mut self, r: usize, ctx: &(dyn VNode<'input> + 'input));
            }
            pub trait VNode<'input>:
                for<'x> Listenable<dyn VListener<'input> + 'x>
                + for<'x> Visitable<dyn VVisitor<'input> + 'x>
                + ParserRuleContext<'input, TF = TF<'input>, Ctx = VCtxType>
            {
                fn as_leaf(&self) -> Option<(bool, isize, isize, String)> {
                    None
                }
                fn label(&self) -> isize {
                    -1
                }
            }
            antlr_rust::coerce_from! { 'input : VNode<'input> }
            antlr_rust::coerce_from! { 'input : VListener<'input> }

            impl<'input> VNode<'input> for TerminalNode<'input, VCtxType> {
                fn as_leaf(&self) -> Option<(bool, isize, isize, String)> {
                    let t: &Inner<'input> = self.symbol.borrow();
                    Some((
                        false,
                        t.get_token_index(),
                        t.get_token_type(),
                        t.get_text().to_string(),
                    ))
                }
            }
            impl<'input> VNode<'input> for ErrorNode<'input, VCtxType> {
                fn as_leaf(&self) -> Option<(bool, isize, isize, String)> {
                    let t: &Inner<'input> = self.symbol.borrow();
                    Some((
                        true,
                        t.get_token_index(),
                        t.get_token_type(),
                        t.get_text().to_string(),
                    ))
                }
            }
            impl<'input, 'x, T> VisitableDyn<T> for dyn VNode<'input> + 'input
            where
                T: VVisitor<'input> + 'x,
            {
                fn accept_dyn(&self, visitor: &mut T) {
                    self.accept(visitor as &mut (dyn VVisitor<'input> + 'x))
                }
            }
            antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VNode<'input> + 'input }
            antlr_rust::tid! { impl<'input> TidAble<'input> for dyn VListener<'input> + 'input }

            pub struct VCtxType;
            antlr_rust::tid! {VCtxType}
            impl<'input> ParserNodeType<'input> for VCtxType {
                type TF = TF<'input>;
                type Type = dyn VNode<'input> + 'input;
            }

            pub struct M0;
            pub struct M1;
            pub struct M2;
            pub struct VExt<'input, M: 'static> {
                pub rule: usize,
                pub label: Cell<isize>,
                ph: PhantomData<(&'input str, M)>,
            }
            antlr_rust::tid! { impl<'input, M: 'static> TidAble<'input> for VExt<'input, M> }
            pub type VRule<'input, M> = BaseParserRuleContext<'input, VExt<'input, M>>;
            impl<'input, M: 'static> CustomRuleContext<'input> for VExt<'input, M> {
                type TF = TF<'input>;
                type Ctx = VCtxType;
                fn get_rule_index(&self) -> usize {
                    self.rule
                }
            }
            impl<'input, M: 'static> VNode<'input> for VRule<'input, M> {
                fn label(&self) -> isize {
                    self.label.get()
                }
            }
            impl<'input, 'a, M: 'static> Listenable<dyn VListener<'input> + 'a> for VRule<'input, M> {
                fn enter(&self, listener: &mut (dyn VListener<'input> + 'a)) {
                    listener.enter_every_rule(self);
                    listener.enter_r(self.rule);
                }
                fn exit(&self, listener: &mut (dyn VListener<'input> + 'a)) {
                    listener.exit_r(self.rule);
                    listener.exit_every_rule(self);
                }
            }
            impl<'input, 'a, M: 'static> Visitable<dyn VVisitor<'input> + 'a> for VRule<'input, M> {
                fn accept(&self, visitor: &mut (dyn VVisitor<'input> + 'a)) {
                    visitor.visit_r(self.rule, self);
                }
            }
            type NodeRc<'input> = Rc<dyn VNode<'input> + 'input>;
            fn new_node<'input>(
                r: usize,
                parent: Option<NodeRc<'input>>,
                st: isize,
            ) -> NodeRc<'input> {
                fn mk<'input, M: 'static>(
                    r: usize,
                    parent: Option<NodeRc<'input>>,
                    st: isize,
                ) -> NodeRc<'input> {
                    Rc::new(BaseParserRuleContext::new_parser_ctx(
                        parent,
                        st,
                        VExt::<M> { rule: r, label: Cell::new(-1), ph: PhantomData },
                    ))
                }
                match r % 3 {
                    0 => mk::<M0>(r, parent, st),
                    1 => mk::<M1>(r, parent, st),
                    _ => mk::<M2>(r, parent, st),
                }
            }
            /// what generated code does for `# label` alternatives
            fn label_node<'input>(ctx: &NodeRc<'input>, r: usize, label: isize) -> NodeRc<'input> {
                fn mk<'input, M: 'static>(
                    ctx: &NodeRc<'input>,
                    r: usize,
                    label: isize,
                ) -> NodeRc<'input> {
                    Rc::new(BaseParserRuleContext::copy_from(
                        &**ctx,
                        VExt::<M> { rule: r, label: Cell::new(label), ph: PhantomData },
                    ))
                }
                match r % 3 {
                    0 => mk::<M0>(ctx, r, label),
                    1 => mk::<M1>(ctx, r, label),
                    _ => mk::<M2>(ctx, r, label),
                }
            }

            // ------------------------------------------------------------- token source/stream
            pub struct VecSource<'input> {
                pub toks: Vec<TokSpec>,
                pub pos: usize,
                pub factory: &'input Factory<'input>,
                pub eof: (isize, isize, isize),
            }
            impl<'input> VecSource<'input> {
                pub fn new(toks: &[TokSpec], factory: &'input Factory<'input>) -> Self {
                    let last = toks.last();
                    VecSource {
                        eof: (
                            last.map(|t| t.stop + 1).unwrap_or(0),
                            last.map(|t| t.line).unwrap_or(1),
                            last.map(|t| t.col + t.text.chars().count() as isize).unwrap_or(0),
                        ),
                        toks: toks.to_vec(),
                        pos: 0,
                        factory,
                    }
                }
            }
            pub type CS = antlr_rust::InputStream<Box<str>>;
            impl<'input> TokenSource<'input> for VecSource<'input> {
                type TF = TF<'input>;
                fn next_token(&mut self) -> Tok<'input> {
                    if let Some(t) = self.toks.get(self.pos) {
                        self.pos += 1;
                        self.factory.create(
                            None::<&mut CS>,
                            t.ty as isize,
                            Some(t.text.clone()),
                            t.ch,
                            t.start,
                            t.stop,
                            t.line,
                            t.col,
                        )
                    } else {
                        self.factory.create(
                            None::<&mut CS>,
                            EOF,
                            None,
                            0,
                            self.eof.0,
                            self.eof.0 - 1,
                            self.eof.1,
                            self.eof.2,
                        )
                    }
                }
                fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
                    None
                }
                fn get_source_name(&self) -> String {
                    "<vec>".into()
                }
                fn get_token_factory(&self) -> &'input TF<'input> {
                    self.factory
                }
            }

            /// token stream wrapper: counts operations, enforces the logical step budget, and
            /// watches the protocol (consumption is monotone, marks are balanced)
            pub struct MonStream<'input, S: TokenStream<'input>> {
                pub s: S,
                pub log: Rc<Log>,
                pub marks: Vec<isize>,
                ph: PhantomData<&'input str>,
            }
            antlr_rust::tid! { impl<'input, S> TidAble<'input> for MonStream<'input, S> where S: TokenStream<'input> }
            impl<'input, S: TokenStream<'input>> IntStream for MonStream<'input, S> {
                fn consume(&mut self) {
                    self.log.tick();
                    self.log.consumed.borrow_mut().push(self.s.index());
                    self.s.consume()
                }
                fn la(&mut self, i: isize) -> isize {
                    self.log.tick();
                    self.log.horizon.set(self.log.horizon.get().max(self.s.index()));
                    self.s.la(i)
                }
                fn mark(&mut self) -> isize {
                    let m = self.s.mark();
                    self.marks.push(m);
                    m
                }
                fn release(&mut self, m: isize) {
                    match self.marks.pop() {
                        Some(x) if x == m => {}
                        x => self
                            .log
                            .issues
                            .borrow_mut()
                            .push(format!("release({}) does not match mark {:?}", m, x)),
                    }
                    self.s.release(m)
                }
                fn index(&self) -> isize {
                    self.s.index()
                }
                fn seek(&mut self, i: isize) {
                    self.log.tick();
                    self.s.seek(i)
                }
                fn size(&self) -> isize {
                    self.s.size()
                }
                fn get_source_name(&self) -> String {
                    self.s.get_source_name()
                }
            }
            impl<'input, S: TokenStream<'input, TF = TF<'input>>> TokenStream<'input>
                for MonStream<'input, S>
            {
                type TF = TF<'input>;
                fn lt(&mut self, k: isize) -> Option<&Tok<'input>> {
                    self.log.tick();
                    self.s.lt(k)
                }
                fn get(&self, index: isize) -> &Tok<'input> {
                    self.log.tick();
                    self.s.get(index)
                }
                fn get_token_source(&self) -> &dyn TokenSource<'input, TF = Self::TF> {
                    self.s.get_token_source()
                }
                fn get_text_from_interval(&self, a: isize, b: isize) -> String {
                    self.s.get_text_from_interval(a, b)
                }
            }

            // ------------------------------------------------------------- parser
            pub type BP<'input, I> =
                BaseParser<'input, PExt<'input>, I, VCtxType, dyn VListener<'input> + 'input>;
            pub struct PExt<'input> {
                preds: Vec<bool>,
                log: Rc<Log>,
                ph: PhantomData<&'input str>,
            }
            antlr_rust::tid! { PExt<'a> }
            impl<'input> TokenAware<'input> for PExt<'input> {
                type TF = TF<'input>;
            }
            impl<'input, I: TokenStream<'input, TF = TF<'input>> + TidAble<'input>>
                ParserRecog<'input, BP<'input, I>> for PExt<'input>
            {
            }
            impl<'input, I: TokenStream<'input, TF = TF<'input>> + TidAble<'input>>
                Actions<'input, BP<'input, I>> for PExt<'input>
            {
                fn get_grammar_file_name(&self) -> &str {
                    "V.g4"
                }
                fn get_rule_names(&self) -> &[&str] {
                    &RULE_NAMES
                }
                fn get_vocabulary(&self) -> &dyn Vocabulary {
                    &**VOCAB
                }
                fn sempred(
                    localctx: Option<&(dyn VNode<'input> + 'input)>,
                    rule_index: isize,
                    pred_index: isize,
                    recog: &mut BP<'input, I>,
                ) -> bool {
                    let at = recog.get_input_stream_mut().index();
                    let l = &recog.log;
                    l.sempreds.set(l.sempreds.get() + 1);
                    l.tick();
                    if rule_index >= 0 && (pred_index / 12) % 2 == 1 {
                        let r = localctx.map(|c| c.get_rule_index() as isize);
                        if r != Some(rule_index) {
                            l.issues.borrow_mut().push(format!(
                                "context dependent predicate of rule {} evaluated with the context of {:?}",
                                rule_index, r
                            ));
                        }
                    }
                    pred_value(&recog.preds, pred_index, at)
                }
            }

            pub struct Interp<'input, I, H>
            where
                I: TokenStream<'input, TF = TF<'input>> + TidAble<'input>,
                H: ErrorStrategy<'input, BP<'input, I>>,
            {
                pub base: BP<'input, I>,
                interp: Arc<ParserATNSimulator>,
                pub err: H,
                sh: Shared,
                log: Rc<Log>,
                labels: bool,
                churn: bool,
            }

            struct EL {
                log: Rc<Log>,
            }
            fn bits(b: &BitSet) -> Vec<usize> {
                b.iter().collect()
            }
            impl<'input, I> ErrorListener<'input, BP<'input, I>> for EL
            where
                I: TokenStream<'input, TF = TF<'input>> + TidAble<'input>,
            {
                fn syntax_error(
                    &self,
                    recog: &BP<'input, I>,
                    sym: Option<&Inner<'input>>,
                    line: isize,
                    col: isize,
                    msg: &str,
                    e: Option<&ANTLRError>,
                ) {
                    let iv = |s: antlr_rust::interval_set::IntervalSet| {
                        (-3..100).filter(|x| s.contains(*x)).collect::<Vec<isize>>()
                    };
                    let (kind, expected) = match e {
                        None => ("inline", None),
                        Some(ANTLRError::NoAltError(_)) => ("noalt", None),
                        Some(ANTLRError::InputMismatchError(e)) => {
                            ("mismatch", Some(iv(e.base.get_expected_tokens(recog))))
                        }
                        Some(ANTLRError::PredicateError(_)) => ("pred", None),
                        Some(ANTLRError::IllegalStateError(_)) => ("illegal", None),
                        Some(_) => ("other", None),
                    };
                    let expected = if kind == "inline" && !msg.starts_with("report") {
                        Some(iv(recog.get_expected_tokens()))
                    } else {
                        expected
                    };
                    let off_state = match e {
                        Some(ANTLRError::InputMismatchError(e)) => e.base.offending_state,
                        _ => recog.get_state(),
                    };
                    let tok = sym.map(|t| t.get_token_index()).unwrap_or(-2);
                    self.log.errors.borrow_mut().push(ErrEv {
                        tok,
                        line,
                        col,
                        msg: msg.to_string(),
                        kind,
                        expected,
                        at: recog.input.index(),
                        state: recog.get_state(),
                        stack: self.log.stack.borrow().clone(),
                        off_state,
                        sync_stacks: self
                            .log
                            .syncs
                            .borrow()
                            .iter()
                            .filter(|x| x.0 == off_state && x.1 == recog.input.index())
                            .map(|x| x.2.clone())
                            .collect(),
                    });
                    self.log.diags.borrow_mut().push(Diag::Error { tok });
                }
                fn report_ambiguity(
                    &self,
                    _r: &BP<'input, I>,
                    dfa: &DFA,
                    start: isize,
                    stop: isize,
                    exact: bool,
                    alts: &BitSet,
                    _c: &ATNConfigSet,
                ) {
                    self.log.diags.borrow_mut().push(Diag::Ambig {
                        dec: dfa.decision,
                        start,
                        stop,
                        exact,
                        alts: bits(alts),
                    })
                }
                fn report_attempting_full_context(
                    &self,
                    _r: &BP<'input, I>,
                    dfa: &DFA,
                    start: isize,
                    stop: isize,
                    alts: &BitSet,
                    _c: &ATNConfigSet,
                ) {
                    self.log.diags.borrow_mut().push(Diag::Full {
                        dec: dfa.decision,
                        start,
                        stop,
                        alts: bits(alts),
                    })
                }
                fn report_context_sensitivity(
                    &self,
                    _r: &BP<'input, I>,
                    dfa: &DFA,
                    start: isize,
                    stop: isize,
                    alt: isize,
                    _c: &ATNConfigSet,
                ) {
                    self.log.diags.borrow_mut().push(Diag::Sens {
                        dec: dfa.decision,
                        start,
                        stop,
                        alt,
                    })
                }
            }

            struct Lst {
                id: usize,
                log: Rc<Log>,
                out: Vec<Ev>,
                /// payload with a destructor, to make type confusion visible
                _tag: Box<u64>,
            }
            impl<'input> ParseTreeListener<'input, VCtxType> for Lst {
                fn visit_terminal(&mut self, n: &TerminalNode<'input, VCtxType>) {
                    let t: &Inner<'input> = n.symbol.borrow();
                    self.ev(Ev::Term(t.get_token_index(), t.get_token_type()));
                }
                fn visit_error_node(&mut self, n: &ErrorNode<'input, VCtxType>) {
                    let t: &Inner<'input> = n.symbol.borrow();
                    self.ev(Ev::Err(t.get_token_index(), t.get_token_type()));
                }
                fn enter_every_rule(&mut self, c: &(dyn VNode<'input> + 'input)) {
                    self.ev(Ev::EnterEvery(c.get_rule_index()));
                }
                fn exit_every_rule(&mut self, c: &(dyn VNode<'input> + 'input)) {
                    self.ev(Ev::ExitEvery(c.get_rule_index()));
                }
            }
            impl Lst {
                fn ev(&mut self, e: Ev) {
                    self.log.events.borrow_mut().push((self.id, e.clone()));
                    self.out.push(e)
                }
            }
            impl<'input> VListener<'input> for Lst {
                fn enter_r(&mut self, r: usize) {
                    self.ev(Ev::Enter(r))
                }
                fn exit_r(&mut self, r: usize) {
                    self.ev(Ev::Exit(r))
                }
            }

            struct Vis {
                out: Vec<Ev>,
            }
            impl<'input> ParseTreeVisitor<'input, VCtxType> for Vis {
                fn visit_terminal(&mut self, n: &TerminalNode<'input, VCtxType>) {
                    let t: &Inner<'input> = n.symbol.borrow();
                    self.out.push(Ev::Term(t.get_token_index(), t.get_token_type()));
                }
                fn visit_error_node(&mut self, n: &ErrorNode<'input, VCtxType>) {
                    let t: &Inner<'input> = n.symbol.borrow();
                    self.out.push(Ev::Err(t.get_token_index(), t.get_token_type()));
                }
            }
            impl<'input> VVisitor<'input> for Vis {
                fn visit_r(&mut self, r: usize, ctx: &(dyn VNode<'input> + 'input)) {
                    self.out.push(Ev::Enter(r));
                    ParseTreeVisitor::visit_children(self, ctx);
                    self.out.push(Ev::Exit(r));
                }
            }

            type R<T> = Result<T, ANTLRError>;

            impl<'input, I, H> Interp<'input, I, H>
            where
                I: TokenStream<'input, TF = TF<'input>> + TidAble<'input>,
                H: ErrorStrategy<'input, BP<'input, I>>,
            {
                fn predict(&mut self, dec: usize) -> R<isize> {
                    let pos = self.base.input.index();
                    self.log.horizon.set(pos);
                    let a = self.interp.adaptive_predict(dec as isize, &mut self.base);
                    // prediction must not move the stream
                    let after = self.base.input.index();
                    if after != pos {
                        self.log.issues.borrow_mut().push(format!(
                            "prediction of decision {} moved the token stream from {} to {}",
                            dec, pos, after
                        ));
                    }
                    self.log.tries.borrow_mut().push((dec, pos, a.as_ref().ok().copied()));
                    self.log.looked.borrow_mut().push(self.log.horizon.get());
                    let a = a?;
                    self.log.choices.borrow_mut().push((dec, pos, a));
                    self.log.diags.borrow_mut().push(Diag::Choice {
                        dec: dec as isize,
                        pos,
                        alt: a,
                    });
                    Ok(a)
                }
                fn sync(&mut self, st: usize) -> R<()> {
                    self.base.set_state(st as isize);
                    {
                        let mut y = self.log.syncs.borrow_mut();
                        y.push((st as isize, self.base.input.index(), self.log.stack.borrow().clone()));
                        if y.len() > 200 {
                            y.drain(..100);
                        }
                    }
                    self.err.sync(&mut self.base)
                }
                fn alts(&mut self, st: usize, dec: usize, alts: &Vec<Vec<N>>) -> R<()> {
                    if dec == usize::MAX {
                        return self.seq(&alts[0]);
                    }
                    self.sync(st)?;
                    let a = self.predict(dec)?;
                    if a >= 1 && (a as usize) <= alts.len() {
                        self.seq(&alts[a as usize - 1])
                    } else {
                        Err(ANTLRError::NoAltError(NoViableAltError::new(&mut self.base)))
                    }
                }
                fn body(&mut self, b: &Body) -> R<()> {
                    match b.dec {
                        Some(d) => self.alts(b.st, d, &b.alts),
                        None => self.seq(&b.alts[0]),
                    }
                }
                fn seq(&mut self, ns: &Vec<N>) -> R<()> {
                    for n in ns {
                        self.el(n)?
                    }
                    Ok(())
                }
                fn el(&mut self, n: &N) -> R<()> {
                    match n {
                        N::Tok { st, t } => {
                            self.base.set_state(*st as isize);
                            self.base.match_token(*t as isize, &mut self.err)?;
                        }
                        N::Wild { st } => {
                            self.base.set_state(*st as isize);
                            self.base.match_wildcard(&mut self.err)?;
                        }
                        N::Set { st, set, not } => {
                            self.base.set_state(*st as isize);
                            let la = self.base.input.la(1);
                            let inset =
                                set.iter().any(|(a, b)| la >= *a as isize && la <= *b as isize);
                            let bad = if *not { la <= 0 || inset } else { !inset };
                            if bad {
                                self.err.recover_inline(&mut self.base)?;
                            } else {
                                if la == EOF {
                                    self.base.matched_eof = true;
                                }
                                self.err.report_match(&mut self.base);
                                self.base.consume(&mut self.err);
                            }
                        }
                        N::Rule { st, r, p } => {
                            self.base.set_state(*st as isize);
                            self.log.stack.borrow_mut().push(*st);
                            self.rule(*r, *p as isize)?;
                            self.log.stack.borrow_mut().pop();
                        }
                        N::Block { st, dec, alts } => self.alts(*st, *dec, alts)?,
                        N::Opt { st, dec, alts, greedy } => {
                            self.sync(*st)?;
                            let a = self.predict(*dec)?;
                            let i = if *greedy { a - 1 } else { a - 2 };
                            if i >= 0 && (i as usize) < alts.len() {
                                self.seq(&alts[i as usize])?
                            }
                        }
                        N::Star { st, lb, dec, body, greedy } => {
                            let (go, exit) = if *greedy { (1, 2) } else { (2, 1) };
                            self.sync(*st)?;
                            let mut a = self.predict(*dec)?;
                            while a != exit && a != INVALID_ALT {
                                if a == go {
                                    self.body(body)?;
                                }
                                self.sync(*lb)?;
                                a = self.predict(*dec)?;
                            }
                        }
                        N::Plus { st, lb, dec, body, greedy } => {
                            let (go, exit) = if *greedy { (1, 2) } else { (2, 1) };
                            self.sync(*st)?;
                            let mut a = go;
                            loop {
                                if a == go {
                                    self.body(body)?;
                                } else {
                                    return Err(ANTLRError::NoAltError(NoViableAltError::new(
                                        &mut self.base,
                                    )));
                                }
                                self.sync(*lb)?;
                                a = self.predict(*dec)?;
                                if a == exit || a == INVALID_ALT {
                                    break;
                                }
                            }
                        }
                        N::Pred { st, idx } => {
                            self.base.set_state(*st as isize);
                            if !self.base.sempred(None, -7, *idx as isize) {
                                return Err(FailedPredicateError::new(
                                    &mut self.base,
                                    Some(format!("p{}", idx)),
                                    None,
                                ));
                            }
                        }
                        N::Prec { st, p } => {
                            self.base.set_state(*st as isize);
                            if !self.base.precpred(None, *p as isize) {
                                return Err(FailedPredicateError::new(
                                    &mut self.base,
                                    Some(format!("precpred {}", p)),
                                    None,
                                ));
                            }
                        }
                        N::Act { .. } => {
                            if self.churn {
                                let id = self.base.add_parse_listener(Box::new(Lst {
                                    id: 99,
                                    log: Rc::new(Log::default()),
                                    out: vec![],
                                    _tag: Box::new(99),
                                }));
                                let l: Box<Lst> = self.base.remove_parse_listener(id);
                                if l.id != 99 || !l.out.is_empty() || *l._tag != 99 {
                                    self.log
                                        .issues
                                        .borrow_mut()
                                        .push("removed listener is not the one added".into());
                                }
                            }
                        }
                    }
                    Ok(())
                }
                pub fn rule(&mut self, r: usize, prec: isize) -> R<NodeRc<'input>> {
                    let sh = self.sh.clone();
                    let p = &sh.c.prog[r];
                    let parent = self.base.ctx.take();
                    let pst = self.base.get_state();
                    let mut local = new_node(r, parent.clone(), pst);
                    if p.leftrec {
                        self.base.enter_recursion_rule(local.clone(), p.start as isize, r, prec);
                    } else {
                        self.base.enter_rule(local.clone(), p.start as isize, r);
                    }
                    let res: R<()> = if p.leftrec {
                        self.lr_body(r, &parent, pst, &mut local)
                    } else {
                        self.rule_body(r, &mut local)
                    };
                    match res {
                        Ok(_) => {}
                        Err(e @ ANTLRError::FallThrough(_)) => return Err(e),
                        Err(ref re) => {
                            self.err.report_error(&mut self.base, re);
                            self.err.recover(&mut self.base, re)?;
                        }
                    }
                    if p.leftrec {
                        self.base.unroll_recursion_context(parent);
                    } else {
                        self.base.exit_rule();
                    }
                    Ok(local)
                }
                fn rule_body(&mut self, r: usize, local: &mut NodeRc<'input>) -> R<()> {
                    let sh = self.sh.clone();
                    let p = &sh.c.prog[r];
                    let mut alt = 1isize;
                    if let Some((st, d)) = p.choice {
                        let l = self.log.clone();
                        l.abandoned.set(l.abandoned.get() + 1);
                        self.sync(st)?;
                        alt = self.predict(d)?;
                        l.abandoned.set(l.abandoned.get() - 1);
                    }
                    if alt < 1 || alt as usize > p.alts.len() {
                        return Ok(());
                    }
                    if self.labels {
                        let tmp = label_node(local, r, alt);
                        self.base.enter_outer_alt(Some(tmp.clone()), alt);
                        *local = tmp;
                    } else {
                        self.base.enter_outer_alt(None, alt);
                    }
                    self.seq(&p.alts[alt as usize - 1])
                }
                fn lr_body(
                    &mut self,
                    r: usize,
                    parent: &Option<NodeRc<'input>>,
                    pst: isize,
                    local: &mut NodeRc<'input>,
                ) -> R<()> {
                    let sh = self.sh.clone();
                    let p = &sh.c.prog[r];
                    self.base.enter_outer_alt(None, 1);
                    let mut alt = 1isize;
                    if let Some((st, d)) = p.choice {
                        self.sync(st)?;
                        alt = self.predict(d)?;
                    }
                    if alt >= 1 && alt as usize <= p.alts.len() {
                        if self.labels {
                            let tmp = label_node(local, r, alt);
                            self.base.ctx = Some(tmp.clone());
                            *local = tmp;
                        }
                        self.seq(&p.alts[alt as usize - 1])?;
                    }
                    let t = self.base.input.lt(-1).cloned();
                    self.base.ctx.as_ref().unwrap().set_stop(t);
                    if let Some(n) = &p.loop_ {
                        if let N::Star { st, lb, dec, body, .. } = &**n {
                            self.sync(*st)?;
                            let mut a = self.predict(*dec)?;
                            while a != 2 && a != INVALID_ALT {
                                if a == 1 {
                                    self.base.trigger_exit_rule_event();
                                    let mut k = 1isize;
                                    if let Some(d) = body.dec {
                                        // (what fails here has left the rule's node already)
                                        let log = self.log.clone();
                                        log.left_twice.set(log.left_twice.get() + 1);
                                        self.sync(body.st)?;
                                        k = self.predict(d)?;
                                        log.left_twice.set(log.left_twice.get() - 1);
                                    }
                                    if k >= 1 && k as usize <= body.alts.len() {
                                        let mut tmp = new_node(r, parent.clone(), pst);
                                        if self.labels {
                                            tmp = label_node(&tmp, r, 100 + k);
                                        }
                                        self.base.push_new_recursion_context(
                                            tmp.clone(),
                                            p.start as isize,
                                            r,
                                        );
                                        *local = tmp;
                                        self.seq(&body.alts[k as usize - 1])?;
                                    }
                                }
                                self.sync(*lb)?;
                                a = self.predict(*dec)?;
                            }
                        }
                    }
                    Ok(())
                }
            }

            // ------------------------------------------------------------- running
            fn conv<'input>(
                n: &NodeRc<'input>,
                parent: Option<&NodeRc<'input>>,
                issues: &mut Vec<String>,
                depth: usize,
            ) -> TNode {
                if depth > 5000 {
                    issues.push("tree too deep / cyclic".into());
                    return TNode::Tok { idx: -9, ty: -9 };
                }
                if let Some((err, idx, ty, text)) = n.as_leaf() {
                    if n.get_child_count() != 0 {
                        issues.push("leaf with children".into());
                    }
                    let iv = n.get_source_interval();
                    if iv.a != idx || iv.b != idx {
                        issues.push(format!("leaf source interval {:?} for token {}", iv, idx));
                    }
                    if n.get_text() != text {
                        issues.push("leaf text differs from token text".into());
                    }
                    return if err {
                        TNode::Err { idx, ty, text }
                    } else {
                        TNode::Tok { idx, ty }
                    };
                }
                let r = n.get_rule_index();
                let (start, stop) =
                    (n.start().get_token_index(), n.stop().get_token_index());
                match (n.get_parent(), parent) {
                    (None, None) => {}
                    (Some(a), Some(b)) if Rc::ptr_eq(&a, b) => {}
                    (a, b) => issues.push(format!(
                        "parent pointer of rule {} node is wrong (has parent: {}, expected parent: {})",
                        r,
                        a.is_some(),
                        b.is_some()
                    )),
                }
                if n.has_parent() != parent.is_some() {
                    issues.push("has_parent wrong".into());
                }
                let iv = n.get_source_interval();
                if iv.a != start || iv.b != stop {
                    issues.push("source interval differs from start/stop".into());
                }
                let kids: Vec<NodeRc<'input>> = n.get_children().collect();
                if kids.len() != n.get_child_count() {
                    issues.push("get_children disagrees with get_child_count".into());
                }
                for (i, k) in kids.iter().enumerate() {
                    match n.get_child(i) {
                        Some(c) if Rc::ptr_eq(&c, k) => {}
                        _ => issues.push("get_child disagrees with get_children".into()),
                    }
                }
                if n.get_child(kids.len()).is_some() {
                    issues.push("get_child past the end".into());
                }
                // typed accessors
                for m in 0..3usize {
                    let expect: Vec<&NodeRc<'input>> = kids
                        .iter()
                        .filter(|k| k.as_leaf().is_none() && k.get_rule_index() % 3 == m)
                        .collect();
                    fn addr<T: ?Sized>(r: &Rc<T>) -> usize {
                        Rc::as_ptr(r) as *const () as usize
                    }
                    fn acc<'input, M: 'static>(
                        n: &NodeRc<'input>,
                        cnt: usize,
                    ) -> Option<(Vec<usize>, Vec<usize>)> {
                        fn inner<'input, S: 'static, M: 'static>(
                            n: &NodeRc<'input>,
                            cnt: usize,
                        ) -> Option<(Vec<usize>, Vec<usize>)> {
                            let c: Rc<VRule<'input, S>> = n.clone().downcast_rc().ok()?;
                            Some((
                                c.children_of_type::<VRule<'input, M>>().iter().map(addr).collect(),
                                (0..cnt + 1)
                                    .filter_map(|i| c.child_of_type::<VRule<'input, M>>(i))
                                    .map(|x| addr(&x))
                                    .collect(),
                            ))
                        }
                        match n.get_rule_index() % 3 {
                            0 => inner::<M0, M>(n, cnt),
                            1 => inner::<M1, M>(n, cnt),
                            _ => inner::<M2, M>(n, cnt),
                        }
                    }
                    let ex: Vec<usize> = expect.iter().map(|r| addr(*r)).collect();
                    let got = match m {
                        0 => acc::<M0>(n, ex.len()),
                        1 => acc::<M1>(n, ex.len()),
                        _ => acc::<M2>(n, ex.len()),
                    };
                    match got {
                        None => issues.push("rule context cannot be downcast to its type".into()),
                        Some((a, b)) => {
                            if a != ex || b != ex {
                                issues.push(format!(
                                    "typed child accessors return {} / {} nodes, expected {}",
                                    a.len(),
                                    b.len(),
                                    ex.len()
                                ));
                            }
                        }
                    }
                }
                let mut seen: Vec<isize> = kids
                    .iter()
                    .filter_map(|k| k.as_leaf())
                    .filter(|l| !l.0)
                    .map(|l| l.2)
                    .collect();
                seen.sort();
                let total = seen.len();
                seen.dedup();
                let mut sum = 0;
                for t in seen {
                    let ex: Vec<isize> = kids
                        .iter()
                        .filter_map(|k| k.as_leaf())
                        .filter(|l| !l.0 && l.2 == t)
                        .map(|l| l.1)
                        .collect();
                    let g: Vec<isize> = n
                        .get_tokens(t)
                        .iter()
                        .map(|x| Borrow::<Inner<'input>>::borrow(&x.symbol).get_token_index())
                        .collect();
                    let g2: Vec<isize> = (0..ex.len() + 1)
                        .filter_map(|i| n.get_token(t, i))
                        .map(|x| Borrow::<Inner<'input>>::borrow(&x.symbol).get_token_index())
                        .collect();
                    if g != ex || g2 != ex {
                        issues.push(format!("get_token(s) for type {} wrong", t));
                    }
                    sum += g.len();
                }
                if sum != total {
                    issues.push("get_tokens lost tokens".into());
                }
                let label = n.label();
                let kids =
                    kids.iter().map(|k| conv(k, Some(n), issues, depth + 1)).collect();
                TNode::Rule { r, label, start, stop, kids }
            }

            fn drive<'input, S, H>(
                sh: &Shared,
                stream: S,
                err: H,
                cfg: &Cfg,
                log: &Rc<Log>,
            ) -> Outcome
            where
                S: TokenStream<'input, TF = TF<'input>> + TidAble<'input>,
                H: ErrorStrategy<'input, BP<'input, MonStream<'input, S>>>,
            {
                let mon =
                    MonStream { s: stream, log: log.clone(), marks: vec![], ph: PhantomData };
                let sim = Arc::new(ParserATNSimulator::new(
                    sh.atn.clone(),
                    sh.dfa.clone(),
                    sh.cache.clone(),
                ));
                sim.set_prediction_mode(match cfg.mode {
                    Mode::Sll => PredictionMode::SLL,
                    Mode::Ll => PredictionMode::LL,
                    Mode::Exact => PredictionMode::LL_EXACT_AMBIG_DETECTION,
                });
                let mut p = Interp {
                    base: BaseParser::new_base_parser(
                        mon,
                        sim.clone(),
                        PExt {
                            preds: cfg.preds.clone(),
                            log: log.clone(),
                            ph: PhantomData,
                        },
                    ),
                    interp: sim,
                    err,
                    sh: sh.clone(),
                    log: log.clone(),
                    labels: cfg.labels,
                    churn: cfg.churn,
                };
                p.base.remove_error_listeners();
                p.base.add_error_listener(Box::new(EL { log: log.clone() }));
                if cfg.diag_listener {
                    p.base.add_error_listener(Box::new(DiagnosticErrorListener::new(false)));
                }
                p.base.build_parse_trees = cfg.build_tree;
                let mut ids: Vec<ListenerId<Lst>> = vec![];
                for i in 0..cfg.listeners {
                    ids.push(p.base.add_parse_listener(Box::new(Lst {
                        id: i,
                        log: log.clone(),
                        out: vec![],
                        _tag: Box::new(i as u64),
                    })));
                }
                let res = p.rule(cfg.start_rule, 0);
                let mut o = Outcome::default();
                let mut issues = vec![];
                match res {
                    Ok(node) => {
                        o.result = "ok".into();
                        if cfg.build_tree {
                            o.tree = Some(conv(&node, None, &mut issues, 0));
                            o.lisp = node.to_string_tree(&p.base);
                            o.text = node.get_text();
                            if cfg.walk {
                                let l = Box::new(Lst {
                                    id: 0,
                                    log: Rc::new(Log::default()),
                                    out: vec![],
                                    _tag: Box::new(0),
                                });
                                let l = walk_any(l, &node);
                                o.walk = l.out;
                                let mut v = Vis { out: vec![] };
                                v.visit_node(&*node);
                                o.visit = v.out;
                            }
                        }
                    }
                    Err(e) => {
                        o.result = match &e {
                            ANTLRError::FallThrough(_) => "fallthrough".into(),
                            _ => format!("err:{:?}", e),
                        };
                        let mut src: Option<&dyn std::error::Error> =
                            std::error::Error::source(&e);
                        while let Some(x) = src {
                            o.inner_error = format!("{:?}", x);
                            src = x.source();
                        }
                    }
                }
                // listeners come back to their owner, in any order
                let n = ids.len();
                for (k, id) in ids.into_iter().enumerate().rev() {
                    let l: Box<Lst> = p.base.remove_parse_listener(id);
                    if l.id != k || *l._tag != k as u64 {
                        issues.push(format!("listener {} of {} came back as {}", k, n, l.id));
                    }
                }
                o.ctx_left = p.base.ctx.is_some();
                o.final_index = p.base.input.index();
                if !p.base.input.marks.is_empty() {
                    issues.push("token stream marks are not balanced after the parse".into());
                }
                issues.extend(log.issues.borrow().iter().cloned());
                o.issues = issues;
                o
            }

            fn walk_any<'input>(l: Box<Lst>, node: &NodeRc<'input>) -> Box<Lst> {
                fn w<'input, M: 'static>(l: Box<Lst>, node: &NodeRc<'input>) -> Box<Lst> {
                    let c: Rc<VRule<'input, M>> =
                        node.clone().downcast_rc().ok().expect("downcast");
                    ParseTreeWalker::<'input, '_, VCtxType, dyn VListener<'input> + 'input>::walk(
                        l, &*c,
                    )
                }
                match node.get_rule_index() % 3 {
                    0 => w::<M0>(l, node),
                    1 => w::<M1>(l, node),
                    _ => w::<M2>(l, node),
                }
            }

            /// token source which boxes another one
            pub struct DynSrc<'input>(pub Box<dyn TokenSource<'input, TF = TF<'input>> + 'input>);
            antlr_rust::tid! { DynSrc<'a> }
            impl<'input> TokenSource<'input> for DynSrc<'input> {
                type TF = TF<'input>;
                fn next_token(&mut self) -> Tok<'input> {
                    self.0.next_token()
                }
                fn get_line(&self) -> isize {
                    self.0.get_line()
                }
                fn get_char_position_in_line(&self) -> isize {
                    self.0.get_char_position_in_line()
                }
                fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
                    self.0.get_input_stream()
                }
                fn get_source_name(&self) -> String {
                    self.0.get_source_name()
                }
                fn get_token_factory(&self) -> &'input TF<'input> {
                    self.0.get_token_factory()
                }
            }

            pub fn parse_source<'input>(
                sh: &Shared,
                src: DynSrc<'input>,
                cfg: &Cfg,
            ) -> Outcome {
                let log = Rc::new(Log::default());
                log.budget.set(cfg.budget);
                let l2 = log.clone();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    if cfg.stream > 0 {
                        let s = if cfg.stream == 1 {
                            UnbufferedTokenStream::new_buffered(src)
                        } else {
                            UnbufferedTokenStream::new_unbuffered(src)
                        };
                        if cfg.bail {
                            drive(sh, s, BailErrorStrategy::new(), cfg, &l2)
                        } else {
                            drive(sh, s, DefaultErrorStrategy::new(), cfg, &l2)
                        }
                    } else {
                        let s = CommonTokenStream::new(src);
                        if cfg.bail {
                            drive(sh, s, BailErrorStrategy::new(), cfg, &l2)
                        } else {
                            drive(sh, s, DefaultErrorStrategy::new(), cfg, &l2)
                        }
                    }
                }));
                let mut o = match r {
                    Ok(o) => o,
                    Err(e) => {
                        let msg = crate::panic_text(&e);
                        let mut o = Outcome::default();
                        if msg.contains(BUDGET_MSG) {
                            o.budget_exceeded = true;
                            o.result = "budget".into();
                        } else {
                            o.result = format!("panic: {}", msg);
                        }
                        o.issues = log.issues.borrow().clone();
                        o
                    }
                };
                o.errors = log.errors.borrow().clone();
                o.diags = log.diags.borrow().clone();
                o.events = log.events.borrow().clone();
                o.choices = log.choices.borrow().clone();
                o.tries = log.tries.borrow().clone();
                o.looked = log.looked.borrow().clone();
                o.consumed = log.consumed.borrow().clone();
                o.stream_ops = log.ops.get();
                o.sempreds = log.sempreds.get();
                o.abandoned = log.abandoned.get();
                o.left_twice = log.left_twice.get();
                o
            }
            pub fn parse_tokens(sh: &Shared, toks: &[TokSpec], cfg: &Cfg) -> Outcome {
                let f = <Factory<'_>>::default();
                let src = DynSrc(Box::new(VecSource::new(toks, &f)));
                parse_source(sh, src, cfg)
            }
            /// `eof`: start index, line and column of the EOF token
            pub fn parse_tokens_eof(sh: &Shared, toks: &[TokSpec], cfg: &Cfg, eof: (isize, isize, isize)) -> Outcome {
                let f = <Factory<'_>>::default();
                let mut v = VecSource::new(toks, &f);
                v.eof = eof;
                parse_source(sh, DynSrc(Box::new(v)), cfg)
            }
        }
    };
}

interp!(common, CommonTokenFactory, CommonTokenFactory);
interp!(owning, OwningTokenFactory, OwningTokenFactory);
interp!(arena, ArenaCommonFactory<'input>, ArenaCommonFactory<'input>);
