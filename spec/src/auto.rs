//! Concrete instances whose auto traits are read off by the analysis: `No…` must be neither Send
//! nor Sync, `Yes…` both.
use rowan::ast::{AstChildren, AstNode};
use rowan::*;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Lang {}
impl Language for Lang {
    type Kind = u16;
    fn kind_from_raw(raw: SyntaxKind) -> u16 {
        raw.0
    }
    fn kind_to_raw(kind: u16) -> SyntaxKind {
        SyntaxKind(kind)
    }
}
/// a typed AST node that says nothing about threads itself
pub struct Ast(());
impl AstNode for Ast {
    type Language = Lang;
    fn can_cast(_: u16) -> bool {
        false
    }
    fn cast(_: SyntaxNode<Lang>) -> Option<Self> {
        None
    }
    fn syntax(&self) -> &SyntaxNode<Lang> {
        unimplemented!()
    }
}

pub struct NoNode(SyntaxNode<Lang>);
pub struct NoToken(SyntaxToken<Lang>);
pub struct NoElement(SyntaxElement<Lang>);
pub struct NoNodeChildren(SyntaxNodeChildren<Lang>);
pub struct NoElementChildren(SyntaxElementChildren<Lang>);
pub struct NoPreorder(api::Preorder<Lang>);
pub struct NoPreorderWithTokens(api::PreorderWithTokens<Lang>);
pub struct NoWalkEvent(WalkEvent<SyntaxNode<Lang>>);
pub struct NoTokenAtOffset(TokenAtOffset<SyntaxToken<Lang>>);
pub struct NoAstChildren(AstChildren<Ast>);
pub struct NoText(SyntaxText);
pub struct NoCursorNode(cursor::SyntaxNode);
pub struct NoCursorToken(cursor::SyntaxToken);
pub struct NoCursorElement(cursor::SyntaxElement);
pub struct NoCursorNodeChildren(cursor::SyntaxNodeChildren);
pub struct NoCursorElementChildren(cursor::SyntaxElementChildren);
pub struct NoCursorNodeChildrenByKind(cursor::SyntaxNodeChildrenByKind<fn(SyntaxKind) -> bool>);
pub struct NoCursorElementChildrenByKind(cursor::SyntaxElementChildrenByKind<fn(SyntaxKind) -> bool>);
pub struct NoCursorPreorder(cursor::Preorder);
pub struct NoCursorPreorderWithTokens(cursor::PreorderWithTokens);
pub struct NoNodeRef(&'static SyntaxNode<Lang>);
pub struct NoTokenRef(&'static SyntaxToken<Lang>);
pub struct NoCursorNodeRef(&'static cursor::SyntaxNode);
pub struct NoCursorTokenRef(&'static cursor::SyntaxToken);

pub struct YesGreenNode(GreenNode);
pub struct YesGreenToken(GreenToken);
pub struct YesGreenElement(NodeOrToken<GreenNode, GreenToken>);
pub struct YesGreenNodeRef(&'static GreenNodeData);
pub struct YesGreenTokenRef(&'static GreenTokenData);
pub struct YesGreenChildren(Children<'static>);
pub struct YesNodeCache(NodeCache);
pub struct YesBuilder(GreenNodeBuilder<'static>);
pub struct YesCheckpoint(Checkpoint);
