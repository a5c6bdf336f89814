use rowan::*;

pub mod imp {
    use super::*;
    pub fn c15_node_ancestors<L: Language>(n: &SyntaxNode<L>, f: impl Fn(SyntaxNode<L>)) {
        for x in n.ancestors() {
            f(x)
        }
    }
    pub fn c15_token_parent_ancestors<L: Language>(n: &SyntaxToken<L>, f: impl Fn(SyntaxNode<L>)) {
        for x in n.parent_ancestors() {
            f(x)
        }
    }
    #[allow(deprecated)]
    pub fn c15_token_ancestors<L: Language>(n: &SyntaxToken<L>, f: impl Fn(SyntaxNode<L>)) {
        for x in n.ancestors() {
            f(x)
        }
    }
    pub fn c15_element_ancestors<L: Language>(n: &SyntaxElement<L>, f: impl Fn(SyntaxNode<L>)) {
        for x in n.ancestors() {
            f(x)
        }
    }
}
pub mod spec {
    use super::*;
    fn up<L: Language>(mut cur: Option<SyntaxNode<L>>, f: impl Fn(SyntaxNode<L>)) {
        while let Some(x) = cur {
            let next = x.parent();
            f(x);
            cur = next;
        }
    }
    pub fn c15_node_ancestors<L: Language>(n: &SyntaxNode<L>, f: impl Fn(SyntaxNode<L>)) {
        up(Some(n.clone()), f)
    }
    pub fn c15_token_parent_ancestors<L: Language>(n: &SyntaxToken<L>, f: impl Fn(SyntaxNode<L>)) {
        up(n.parent(), f)
    }
    pub fn c15_token_ancestors<L: Language>(n: &SyntaxToken<L>, f: impl Fn(SyntaxNode<L>)) {
        up(n.parent(), f)
    }
    pub fn c15_element_ancestors<L: Language>(n: &SyntaxElement<L>, f: impl Fn(SyntaxNode<L>)) {
        match n {
            NodeOrToken::Node(n) => up(Some(n.clone()), f),
            NodeOrToken::Token(t) => up(t.parent(), f),
        }
    }
}
