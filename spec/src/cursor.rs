use rowan::cursor::*;
use rowan::{Direction, NodeOrToken, SyntaxKind, TextRange, TextSize};

pub mod imp {
    use super::*;
    pub fn c08_next_token(t: &SyntaxToken) -> Option<SyntaxToken> {
        t.next_token()
    }
    pub fn c08_prev_token(t: &SyntaxToken) -> Option<SyntaxToken> {
        t.prev_token()
    }
    pub fn c08_first_token(n: &SyntaxNode) -> Option<SyntaxToken> {
        n.first_token()
    }
    pub fn c08_last_token(n: &SyntaxNode) -> Option<SyntaxToken> {
        n.last_token()
    }
    pub fn c08_element_first_token(n: &SyntaxElement) -> Option<SyntaxToken> {
        n.first_token()
    }
    pub fn c08_element_last_token(n: &SyntaxElement) -> Option<SyntaxToken> {
        n.last_token()
    }
    pub fn c08_ancestors(n: &SyntaxNode, f: impl Fn(SyntaxNode)) {
        for x in n.ancestors() {
            f(x)
        }
    }
    pub fn c08_siblings(n: &SyntaxNode, d: Direction, f: impl Fn(SyntaxNode)) {
        for x in n.siblings(d) {
            f(x)
        }
    }
    pub fn c08m_next_sibling_or_token_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        n.next_sibling_or_token_by_kind(&m)
    }
    pub fn c08m_token_next_sibling_or_token_by_kind(t: &SyntaxToken, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        t.next_sibling_or_token_by_kind(&m)
    }
    pub fn c08m_next_sibling_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        n.next_sibling_by_kind(&m)
    }
    pub fn c08m_first_child_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        n.first_child_by_kind(&m)
    }
    pub fn c08m_first_child_or_token_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        n.first_child_or_token_by_kind(&m)
    }
}
pub mod spec {
    use super::*;
    fn first(e: SyntaxElement) -> Option<SyntaxToken> {
        match e {
            NodeOrToken::Node(n) => n.first_token(),
            NodeOrToken::Token(t) => Some(t),
        }
    }
    fn last(e: SyntaxElement) -> Option<SyntaxToken> {
        match e {
            NodeOrToken::Node(n) => n.last_token(),
            NodeOrToken::Token(t) => Some(t),
        }
    }
    pub fn c08_next_token(t: &SyntaxToken) -> Option<SyntaxToken> {
        if let Some(e) = t.next_sibling_or_token() {
            return first(e);
        }
        let mut up = t.parent();
        while let Some(n) = up {
            if let Some(e) = n.next_sibling_or_token() {
                return first(e);
            }
            up = n.parent();
        }
        None
    }
    pub fn c08_prev_token(t: &SyntaxToken) -> Option<SyntaxToken> {
        if let Some(e) = t.prev_sibling_or_token() {
            return last(e);
        }
        let mut up = t.parent();
        while let Some(n) = up {
            if let Some(e) = n.prev_sibling_or_token() {
                return last(e);
            }
            up = n.parent();
        }
        None
    }
    pub fn c08_first_token(n: &SyntaxNode) -> Option<SyntaxToken> {
        first(n.first_child_or_token()?)
    }
    pub fn c08_last_token(n: &SyntaxNode) -> Option<SyntaxToken> {
        last(n.last_child_or_token()?)
    }
    pub fn c08_element_first_token(n: &SyntaxElement) -> Option<SyntaxToken> {
        first(n.clone())
    }
    pub fn c08_element_last_token(n: &SyntaxElement) -> Option<SyntaxToken> {
        last(n.clone())
    }
    pub fn c08_ancestors(n: &SyntaxNode, f: impl Fn(SyntaxNode)) {
        let mut cur = Some(n.clone());
        while let Some(x) = cur {
            let up = x.parent();
            f(x);
            cur = up;
        }
    }
    pub fn c08_siblings(n: &SyntaxNode, d: Direction, f: impl Fn(SyntaxNode)) {
        let mut cur = Some(n.clone());
        while let Some(x) = cur {
            let next = match d {
                Direction::Next => x.next_sibling(),
                Direction::Prev => x.prev_sibling(),
            };
            f(x);
            cur = next;
        }
    }
    fn find(from: Option<SyntaxElement>, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        let mut next = from;
        while let Some(e) = next {
            if m(e.kind()) {
                return Some(e);
            }
            next = e.next_sibling_or_token();
        }
        None
    }
    fn find_first(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        let first = n.first_child_or_token()?;
        if m(first.kind()) {
            return Some(first);
        }
        find(first.next_sibling_or_token(), m)
    }
    fn find_node(from: Option<SyntaxElement>, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        let mut next = find(from, m);
        while let Some(NodeOrToken::Token(t)) = next {
            next = find(t.next_sibling_or_token(), m);
        }
        match next {
            Some(NodeOrToken::Node(n)) => Some(n),
            _ => None,
        }
    }
    pub fn c08m_next_sibling_or_token_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        find(n.next_sibling_or_token(), m)
    }
    pub fn c08m_token_next_sibling_or_token_by_kind(t: &SyntaxToken, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        find(t.next_sibling_or_token(), m)
    }
    pub fn c08m_next_sibling_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        find_node(n.next_sibling_or_token(), &m)
    }
    pub fn c08m_first_child_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxNode> {
        match find_first(n, &m)? {
            NodeOrToken::Node(n) => Some(n),
            NodeOrToken::Token(t) => find_node(t.next_sibling_or_token(), &m),
        }
    }
    pub fn c08m_first_child_or_token_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        find_first(n, m)
    }
}
