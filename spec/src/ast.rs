use rowan::ast::*;
use rowan::*;

pub mod imp {
    use super::*;
    pub fn c19_new<L: Language>(n: &SyntaxNode<L>) -> (L::Kind, TextRange) {
        let p = SyntaxNodePtr::new(n);
        (p.kind(), p.text_range())
    }
    pub fn c19_try_to_node<L: Language>(p: &SyntaxNodePtr<L>, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
        p.try_to_node(root)
    }
    pub fn c19_to_node<L: Language>(p: &SyntaxNodePtr<L>, root: &SyntaxNode<L>) -> SyntaxNode<L> {
        p.to_node(root)
    }
    pub fn c19_cast<N: AstNode>(p: SyntaxNodePtr<N::Language>) -> Option<SyntaxNodePtr<N::Language>> {
        p.cast::<N>().map(|it| it.syntax_node_ptr())
    }
    pub fn c19_ast_new<N: AstNode>(n: &N) -> SyntaxNodePtr<N::Language> {
        AstPtr::new(n).syntax_node_ptr()
    }
    pub fn c19_ast_try_to_node<N: AstNode>(p: &AstPtr<N>, root: &SyntaxNode<N::Language>) -> Option<N> {
        p.try_to_node(root)
    }
    pub fn c19_ast_to_node<N: AstNode>(p: &AstPtr<N>, root: &SyntaxNode<N::Language>) -> N {
        p.to_node(root)
    }
    pub fn c19_ast_cast<N: AstNode, U: AstNode<Language = N::Language>>(p: AstPtr<N>) -> Option<SyntaxNodePtr<N::Language>> {
        p.cast::<U>().map(|it| it.syntax_node_ptr())
    }
    pub fn c19_ast_from<N: AstNode>(p: AstPtr<N>) -> SyntaxNodePtr<N::Language> {
        SyntaxNodePtr::from(p)
    }
    pub fn c19_ast_clone<N: AstNode>(p: &AstPtr<N>) -> SyntaxNodePtr<N::Language> {
        p.clone().syntax_node_ptr()
    }
    pub fn c19_ast_eq<N: AstNode>(p: &AstPtr<N>, q: &AstPtr<N>) -> bool {
        p == q
    }
    // C24
    pub fn c24_child<N: AstNode>(p: &SyntaxNode<N::Language>) -> Option<N> {
        support::child(p)
    }
    pub fn c24_children<N: AstNode>(p: &SyntaxNode<N::Language>, f: impl Fn(N)) {
        for x in support::children::<N>(p) {
            f(x)
        }
    }
    pub fn c24_children_next<N: AstNode>(it: &mut AstChildren<N>, f: impl Fn(N)) {
        while let Some(x) = it.next() {
            f(x)
        }
    }
    pub fn c24_token<L: Language>(p: &SyntaxNode<L>, kind: L::Kind) -> Option<SyntaxToken<L>> {
        support::token(p, kind)
    }
    pub fn c24_clone_for_update<N: AstNode>(n: &N) -> N {
        n.clone_for_update()
    }
    pub fn c24_clone_subtree<N: AstNode>(n: &N) -> N {
        n.clone_subtree()
    }
}
pub mod spec {
    use super::*;
    pub fn c19_new<L: Language>(n: &SyntaxNode<L>) -> (L::Kind, TextRange) {
        assert!(!n.is_mutable());
        (n.kind(), n.text_range())
    }
    fn resolve<L: Language>(p: &SyntaxNodePtr<L>, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
        assert!(!root.is_mutable());
        if root.parent().is_some() {
            return None;
        }
        let mut cur = Some(root.clone());
        while let Some(n) = cur {
            let next = match n.child_or_token_at_range(p.text_range()) {
                Some(NodeOrToken::Node(it)) => Some(it),
                _ => None,
            };
            if n.text_range() == p.text_range() && n.kind() == p.kind() {
                return Some(n);
            }
            cur = next;
        }
        None
    }
    pub fn c19_try_to_node<L: Language>(p: &SyntaxNodePtr<L>, root: &SyntaxNode<L>) -> Option<SyntaxNode<L>> {
        resolve(p, root)
    }
    pub fn c19_to_node<L: Language>(p: &SyntaxNodePtr<L>, root: &SyntaxNode<L>) -> SyntaxNode<L> {
        resolve(p, root).unwrap()
    }
    pub fn c19_cast<N: AstNode>(p: SyntaxNodePtr<N::Language>) -> Option<SyntaxNodePtr<N::Language>> {
        if N::can_cast(p.kind()) {
            Some(p)
        } else {
            None
        }
    }
    pub fn c19_ast_new<N: AstNode>(n: &N) -> SyntaxNodePtr<N::Language> {
        SyntaxNodePtr::new(n.syntax())
    }
    pub fn c19_ast_try_to_node<N: AstNode>(p: &AstPtr<N>, root: &SyntaxNode<N::Language>) -> Option<N> {
        match p.syntax_node_ptr().try_to_node(root) {
            Some(n) => N::cast(n),
            None => None,
        }
    }
    pub fn c19_ast_to_node<N: AstNode>(p: &AstPtr<N>, root: &SyntaxNode<N::Language>) -> N {
        match p.syntax_node_ptr().try_to_node(root) {
            Some(n) => N::cast(n).unwrap(),
            None => panic!(),
        }
    }
    pub fn c19_ast_cast<N: AstNode, U: AstNode<Language = N::Language>>(p: AstPtr<N>) -> Option<SyntaxNodePtr<N::Language>> {
        let p = p.syntax_node_ptr();
        if U::can_cast(p.kind()) {
            Some(p)
        } else {
            None
        }
    }
    pub fn c19_ast_from<N: AstNode>(p: AstPtr<N>) -> SyntaxNodePtr<N::Language> {
        p.syntax_node_ptr()
    }
    pub fn c19_ast_clone<N: AstNode>(p: &AstPtr<N>) -> SyntaxNodePtr<N::Language> {
        p.syntax_node_ptr()
    }
    pub fn c19_ast_eq<N: AstNode>(p: &AstPtr<N>, q: &AstPtr<N>) -> bool {
        p.syntax_node_ptr() == q.syntax_node_ptr()
    }
    // C24
    pub fn c24_child<N: AstNode>(p: &SyntaxNode<N::Language>) -> Option<N> {
        for c in p.children() {
            if let Some(x) = N::cast(c) {
                return Some(x);
            }
        }
        None
    }
    pub fn c24_children<N: AstNode>(p: &SyntaxNode<N::Language>, f: impl Fn(N)) {
        for c in p.children() {
            if let Some(x) = N::cast(c) {
                f(x)
            }
        }
    }
    pub fn c24_children_next<N: AstNode>(it: &mut SyntaxNodeChildren<N::Language>, f: impl Fn(N)) {
        while let Some(c) = it.next() {
            if let Some(x) = N::cast(c) {
                f(x)
            }
        }
    }
    pub fn c24_token<L: Language>(p: &SyntaxNode<L>, kind: L::Kind) -> Option<SyntaxToken<L>> {
        for c in p.children_with_tokens() {
            if let NodeOrToken::Token(t) = c {
                if t.kind() == kind {
                    return Some(t);
                }
            }
        }
        None
    }
    pub fn c24_clone_for_update<N: AstNode>(n: &N) -> N {
        N::cast(n.syntax().clone_for_update()).unwrap()
    }
    pub fn c24_clone_subtree<N: AstNode>(n: &N) -> N {
        N::cast(n.syntax().clone_subtree()).unwrap()
    }
}
