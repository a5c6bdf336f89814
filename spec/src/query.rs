use crate::impossible;
use rowan::cursor::*;
use rowan::{GreenNode, GreenToken, NodeOrToken, TextRange, TextSize, TokenAtOffset};

pub mod imp {
    use super::*;
    pub fn c23_token_at_offset(n: &SyntaxNode, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        n.token_at_offset(offset)
    }
    pub fn c23_covering_element(n: &SyntaxNode, range: TextRange) -> SyntaxElement {
        n.covering_element(range)
    }
    // C25
    pub fn c25_node_replace_with(n: &SyntaxNode, g: GreenNode) -> GreenNode {
        n.replace_with(g)
    }
    pub fn c25_token_replace_with(t: &SyntaxToken, g: GreenToken) -> GreenNode {
        t.replace_with(g)
    }
}
pub mod spec {
    use super::*;
    fn touches(e: &SyntaxElement, offset: TextSize) -> bool {
        let r = e.text_range();
        !r.is_empty() && r.start() <= offset && offset <= r.end()
    }
    fn in_element(e: SyntaxElement, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        match e {
            NodeOrToken::Node(n) => n.token_at_offset(offset),
            NodeOrToken::Token(t) => TokenAtOffset::Single(t),
        }
    }
    pub fn c23_token_at_offset(n: &SyntaxNode, offset: TextSize) -> TokenAtOffset<SyntaxToken> {
        let range = n.text_range();
        assert!(range.start() <= offset && offset <= range.end());
        if range.is_empty() {
            return TokenAtOffset::None;
        }
        let mut it = n.children_with_tokens().filter(|c| touches(c, offset));
        let Some(left) = it.next() else { impossible() };
        let right = it.next();
        if it.next().is_some() {
            impossible()
        }
        match right {
            None => in_element(left, offset),
            Some(right) => match (in_element(left, offset), in_element(right, offset)) {
                (TokenAtOffset::Single(l), TokenAtOffset::Single(r)) => TokenAtOffset::Between(l, r),
                _ => impossible(),
            },
        }
    }
    pub fn c23_covering_element(n: &SyntaxNode, range: TextRange) -> SyntaxElement {
        let mut cur: SyntaxElement = NodeOrToken::Node(n.clone());
        loop {
            assert!(cur.text_range().contains_range(range));
            let next = match &cur {
                NodeOrToken::Token(_) => None,
                NodeOrToken::Node(n) => n.child_or_token_at_range(range),
            };
            match next {
                Some(it) => cur = it,
                None => return cur,
            }
        }
    }
    pub fn c25_node_replace_with(n: &SyntaxNode, g: GreenNode) -> GreenNode {
        assert_eq!(n.kind(), g.kind());
        match n.parent() {
            None => g,
            Some(p) => {
                let g = p.green().replace_child(n.index(), g.into());
                p.replace_with(g)
            }
        }
    }
    pub fn c25_token_replace_with(t: &SyntaxToken, g: GreenToken) -> GreenNode {
        assert_eq!(t.kind(), g.kind());
        let p = t.parent().unwrap();
        let g = p.green().replace_child(t.index(), g.into());
        p.replace_with(g)
    }
}
