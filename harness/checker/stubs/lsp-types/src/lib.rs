//! Stand-in for the crate `lsp-types` (not available offline): the few types that zuban_python uses.
#[derive(Debug, Eq, PartialEq, Ord, PartialOrd, Copy, Clone, Default, Hash)]
pub struct Position {
    pub line: u32,
    pub character: u32,
}
impl Position {
    pub fn new(line: u32, character: u32) -> Self {
        Self { line, character }
    }
}
#[derive(Debug, Eq, PartialEq, Copy, Clone, Default, Hash)]
pub struct Range {
    pub start: Position,
    pub end: Position,
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub struct TextDocumentContentChangeEvent {
    pub range: Option<Range>,
    pub range_length: Option<u32>,
    pub text: String,
}
#[derive(Debug, Eq, PartialEq, Clone)]
pub enum FoldingRangeKind {
    Comment,
    Imports,
    Region,
}
macro_rules! kinds {
    ($t:ident: $($n:ident)*) => {
        #[derive(Debug, Eq, PartialEq, Copy, Clone, PartialOrd, Ord, Hash)]
        pub struct $t(pub &'static str);
        impl $t {
            $(pub const $n: $t = $t(stringify!($n));)*
        }
    };
}
kinds!(CompletionItemKind: TEXT METHOD FUNCTION CONSTRUCTOR FIELD VARIABLE CLASS INTERFACE MODULE PROPERTY UNIT VALUE ENUM KEYWORD SNIPPET COLOR FILE REFERENCE FOLDER ENUM_MEMBER CONSTANT STRUCT EVENT OPERATOR TYPE_PARAMETER);
kinds!(SymbolKind: FILE MODULE NAMESPACE PACKAGE CLASS METHOD PROPERTY FIELD CONSTRUCTOR ENUM INTERFACE FUNCTION VARIABLE CONSTANT STRING NUMBER BOOLEAN ARRAY OBJECT KEY NULL ENUM_MEMBER STRUCT EVENT OPERATOR TYPE_PARAMETER);
kinds!(InlayHintKind: TYPE PARAMETER);
kinds!(SemanticTokenType: NAMESPACE TYPE CLASS ENUM INTERFACE STRUCT TYPE_PARAMETER PARAMETER VARIABLE PROPERTY ENUM_MEMBER EVENT FUNCTION METHOD MACRO KEYWORD MODIFIER COMMENT STRING NUMBER REGEXP OPERATOR DECORATOR);
