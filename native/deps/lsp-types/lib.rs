//! Stand-in for the part of `lsp-types` that is used.
use serde::{Deserialize, Serialize};
use std::path::{Path, PathBuf};
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Position { pub line: u32, pub character: u32 }
impl Position { pub fn new(line: u32, character: u32) -> Self { Position { line, character } } }
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Range { pub start: Position, pub end: Position }
impl Range { pub fn new(start: Position, end: Position) -> Self { Range { start, end } } }
/// only `file:` addresses, without escapes
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Url(String);
impl Url {
    pub fn from_file_path<P: AsRef<Path>>(p: P) -> Result<Url, ()> {
        let p = p.as_ref();
        if p.is_absolute() { Ok(Url(format!("file://{}", p.to_str().ok_or(())?))) } else { Err(()) }
    }
    pub fn to_file_path(&self) -> Result<PathBuf, ()> { self.0.strip_prefix("file://").map(PathBuf::from).ok_or(()) }
    pub fn path(&self) -> &str { self.0.strip_prefix("file://").unwrap_or(&self.0) }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TextDocumentContentChangeEvent { pub range: Option<Range>, pub range_length: Option<u32>, pub text: String }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TextDocumentIdentifier { pub uri: Url }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct VersionedTextDocumentIdentifier { pub uri: Url, pub version: i32 }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TextDocumentItem { pub uri: Url, pub language_id: String, pub version: i32, pub text: String }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TextDocumentPositionParams { pub text_document: TextDocumentIdentifier, pub position: Position }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct HoverParams { pub text_document_position_params: TextDocumentPositionParams }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CompletionParams { pub text_document_position: TextDocumentPositionParams }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DidOpenTextDocumentParams { pub text_document: TextDocumentItem }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DidChangeTextDocumentParams { pub text_document: VersionedTextDocumentIdentifier, pub content_changes: Vec<TextDocumentContentChangeEvent> }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct DidSaveTextDocumentParams { pub text_document: TextDocumentIdentifier }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MarkedString { String(String) }
impl MarkedString { pub fn from_markdown(s: String) -> Self { MarkedString::String(s) } }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum HoverContents { Scalar(MarkedString), Array(Vec<MarkedString>), Markup(MarkupContent) }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Hover { pub contents: HoverContents, pub range: Option<Range> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct CompletionItemKind(pub i32);
impl CompletionItemKind {
    pub const FUNCTION: Self = Self(3);
    pub const CLASS: Self = Self(7);
    pub const FILE: Self = Self(17);
    pub const FOLDER: Self = Self(19);
    pub const CONSTANT: Self = Self(21);
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum MarkupKind { PlainText, Markdown }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct MarkupContent { pub kind: MarkupKind, pub value: String }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Documentation { String(String), MarkupContent(MarkupContent) }
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct CompletionItem { pub label: String, pub kind: Option<CompletionItemKind>, pub detail: Option<String>, pub documentation: Option<Documentation> }
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum CompletionResponse { Array(Vec<CompletionItem>) }
impl From<Vec<CompletionItem>> for CompletionResponse { fn from(v: Vec<CompletionItem>) -> Self { CompletionResponse::Array(v) } }
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct CompletionOptions { pub trigger_characters: Option<Vec<String>>, pub resolve_provider: Option<bool> }
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct InitializeParams {}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct InitializeError { pub retry: bool }
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct ServerInfo { pub name: String, pub version: Option<String> }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct TextDocumentSyncKind(pub i32);
impl TextDocumentSyncKind { pub const INCREMENTAL: Self = Self(2); }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TextDocumentSyncCapability { Kind(TextDocumentSyncKind) }
impl From<TextDocumentSyncKind> for TextDocumentSyncCapability { fn from(x: TextDocumentSyncKind) -> Self { Self::Kind(x) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum HoverProviderCapability { Simple(bool) }
impl From<bool> for HoverProviderCapability { fn from(x: bool) -> Self { Self::Simple(x) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum OneOf<A, B> { Left(A), Right(B) }
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct DefinitionOptions {}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct ServerCapabilities {
    pub text_document_sync: Option<TextDocumentSyncCapability>,
    pub completion_provider: Option<CompletionOptions>,
    pub hover_provider: Option<HoverProviderCapability>,
    pub definition_provider: Option<OneOf<bool, DefinitionOptions>>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct InitializeResult { pub capabilities: ServerCapabilities, pub server_info: Option<ServerInfo> }
pub mod request {
    use serde::{de::DeserializeOwned, Serialize};
    pub trait Request { type Params: DeserializeOwned + Serialize; const METHOD: &'static str; }
    macro_rules! req { ($($i:ident $t:ty, $m:expr;)*) => { $(pub enum $i {} impl Request for $i { type Params = $t; const METHOD: &'static str = $m; })* } }
    req! { Initialize super::InitializeParams, "initialize"; Shutdown (), "shutdown"; HoverRequest super::HoverParams, "textDocument/hover"; Completion super::CompletionParams, "textDocument/completion"; }
}
pub mod notification {
    use serde::{de::DeserializeOwned, Serialize};
    pub trait Notification { type Params: DeserializeOwned + Serialize; const METHOD: &'static str; }
    macro_rules! ntf { ($($i:ident $t:ty, $m:expr;)*) => { $(pub enum $i {} impl Notification for $i { type Params = $t; const METHOD: &'static str = $m; })* } }
    ntf! { Exit (), "exit"; DidOpenTextDocument super::DidOpenTextDocumentParams, "textDocument/didOpen"; DidChangeTextDocument super::DidChangeTextDocumentParams, "textDocument/didChange"; DidSaveTextDocument super::DidSaveTextDocumentParams, "textDocument/didSave"; }
}
#[macro_export]
macro_rules! lsp_request {
    ("initialize") => { $crate::request::Initialize };
    ("shutdown") => { $crate::request::Shutdown };
    ("textDocument/hover") => { $crate::request::HoverRequest };
    ("textDocument/completion") => { $crate::request::Completion };
}
#[macro_export]
macro_rules! lsp_notification {
    ("exit") => { $crate::notification::Exit };
    ("textDocument/didOpen") => { $crate::notification::DidOpenTextDocument };
    ("textDocument/didChange") => { $crate::notification::DidChangeTextDocument };
    ("textDocument/didSave") => { $crate::notification::DidSaveTextDocument };
}
