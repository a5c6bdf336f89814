use rowan::cursor;
use rowan::{GreenNode, GreenNodeData, GreenToken, GreenTokenData, Language, NodeOrToken, SyntaxNode, SyntaxText, SyntaxToken, WalkEvent};
use std::fmt::{self, Display, Formatter, Result};

pub mod imp {
    use super::*;
    pub fn c28_cursor_node(n: &cursor::SyntaxNode, f: &mut Formatter<'_>) -> Result {
        Display::fmt(n, f)
    }
    pub fn c28_cursor_token(t: &cursor::SyntaxToken, f: &mut Formatter<'_>) -> Result {
        Display::fmt(t, f)
    }
    pub fn c28_cursor_element(e: &cursor::SyntaxElement, f: &mut Formatter<'_>) -> Result {
        Display::fmt(e, f)
    }
    pub fn c28_node<L: Language>(n: &SyntaxNode<L>, f: &mut Formatter<'_>) -> Result {
        Display::fmt(n, f)
    }
    pub fn c28_token<L: Language>(t: &SyntaxToken<L>, f: &mut Formatter<'_>) -> Result {
        Display::fmt(t, f)
    }
    pub fn c28_element<N: Display, T: Display>(e: &NodeOrToken<N, T>, f: &mut Formatter<'_>) -> Result {
        Display::fmt(e, f)
    }
    pub fn c28_green_data(n: &GreenNodeData, f: &mut Formatter<'_>) -> Result {
        Display::fmt(n, f)
    }
    pub fn c28_green_node(n: &GreenNode, f: &mut Formatter<'_>) -> Result {
        Display::fmt(n, f)
    }
    pub fn c28_green_token_data(t: &GreenTokenData, f: &mut Formatter<'_>) -> Result {
        Display::fmt(t, f)
    }
    pub fn c28_green_token(t: &GreenToken, f: &mut Formatter<'_>) -> Result {
        Display::fmt(t, f)
    }
    pub fn c28_text(t: &SyntaxText, f: &mut Formatter<'_>) -> Result {
        Display::fmt(t, f)
    }
    pub fn c28_debug_node<L: Language>(n: &SyntaxNode<L>, f: &mut Formatter<'_>) -> Result {
        std::fmt::Debug::fmt(n, f)
    }
    pub fn c28_debug_token<L: Language>(t: &SyntaxToken<L>, f: &mut Formatter<'_>) -> Result {
        std::fmt::Debug::fmt(t, f)
    }
}
pub mod spec {
    use super::*;
    pub fn c28_cursor_node(n: &cursor::SyntaxNode, f: &mut Formatter<'_>) -> Result {
        for ev in n.preorder_with_tokens() {
            if let WalkEvent::Enter(NodeOrToken::Token(t)) = ev {
                f.write_str(t.text())?;
            }
        }
        Ok(())
    }
    pub fn c28_cursor_token(t: &cursor::SyntaxToken, f: &mut Formatter<'_>) -> Result {
        f.write_str(t.text())
    }
    pub fn c28_cursor_element(e: &cursor::SyntaxElement, f: &mut Formatter<'_>) -> Result {
        match e {
            NodeOrToken::Node(n) => Display::fmt(n, f),
            NodeOrToken::Token(t) => f.write_str(t.text()),
        }
    }
    pub fn c28_node<L: Language>(n: &SyntaxNode<L>, f: &mut Formatter<'_>) -> Result {
        for ev in n.preorder_with_tokens() {
            if let WalkEvent::Enter(NodeOrToken::Token(t)) = ev {
                f.write_str(t.text())?;
            }
        }
        Ok(())
    }
    pub fn c28_token<L: Language>(t: &SyntaxToken<L>, f: &mut Formatter<'_>) -> Result {
        f.write_str(t.text())
    }
    pub fn c28_element<N: Display, T: Display>(e: &NodeOrToken<N, T>, f: &mut Formatter<'_>) -> Result {
        match e {
            NodeOrToken::Node(n) => Display::fmt(n, f),
            NodeOrToken::Token(t) => Display::fmt(t, f),
        }
    }
    pub fn c28_green_data(n: &GreenNodeData, f: &mut Formatter<'_>) -> Result {
        for c in n.children() {
            match c {
                NodeOrToken::Node(n) => Display::fmt(n, f)?,
                NodeOrToken::Token(t) => Display::fmt(t, f)?,
            }
        }
        Ok(())
    }
    pub fn c28_green_node(n: &GreenNode, f: &mut Formatter<'_>) -> Result {
        let d: &GreenNodeData = n;
        Display::fmt(d, f)
    }
    pub fn c28_green_token_data(t: &GreenTokenData, f: &mut Formatter<'_>) -> Result {
        f.write_str(t.text())
    }
    pub fn c28_green_token(t: &GreenToken, f: &mut Formatter<'_>) -> Result {
        let d: &GreenTokenData = t;
        Display::fmt(d, f)
    }
    pub fn c28_text(t: &SyntaxText, f: &mut Formatter<'_>) -> Result {
        t.try_for_each_chunk(|s| f.write_str(s))
    }
    pub fn c28_debug_node<L: Language>(n: &SyntaxNode<L>, f: &mut Formatter<'_>) -> Result {
        if !f.alternate() {
            return write!(f, "{:?}@{:?}", n.kind(), n.text_range());
        }
        let mut level = 0;
        for event in n.preorder_with_tokens() {
            match event {
                WalkEvent::Enter(element) => {
                    for _ in 0..level {
                        write!(f, "  ")?;
                    }
                    match element {
                        NodeOrToken::Node(node) => write!(f, "{:?}\n", node)?,
                        NodeOrToken::Token(token) => write!(f, "{:?}\n", token)?,
                    }
                    level += 1;
                }
                WalkEvent::Leave(_) => level -= 1,
            }
        }
        if level != 0 {
            crate::impossible()
        }
        Ok(())
    }
    pub fn c28_debug_token<L: Language>(t: &SyntaxToken<L>, f: &mut Formatter<'_>) -> Result {
        write!(f, "{:?}@{:?}", t.kind(), t.text_range())?;
        if t.text().len() < 25 {
            return write!(f, " {:?}", t.text());
        }
        // a character is at most four bytes long
        for i in 21..25 {
            if t.text().is_char_boundary(i) {
                return write!(f, " {:?}", format!("{} ...", &t.text()[..i]));
            }
        }
        crate::impossible()
    }
}
