use rowan::cursor::*;
use rowan::{Direction, NodeOrToken, SyntaxKind, TokenAtOffset, WalkEvent};

pub mod imp {
    use super::*;
    // C16
    pub fn c16_preorder(n: &SyntaxNode, f: impl Fn(WalkEvent<SyntaxNode>)) {
        for ev in n.preorder() {
            f(ev)
        }
    }
    pub fn c16_preorder_with_tokens(n: &SyntaxNode, f: impl Fn(WalkEvent<SyntaxElement>)) {
        for ev in n.preorder_with_tokens() {
            f(ev)
        }
    }
    pub fn c16_descendants(n: &SyntaxNode, f: impl Fn(SyntaxNode)) {
        for x in n.descendants() {
            f(x)
        }
    }
    pub fn c16_descendants_with_tokens(n: &SyntaxNode, f: impl Fn(SyntaxElement)) {
        for x in n.descendants_with_tokens() {
            f(x)
        }
    }
    pub fn c16_first(n: &SyntaxNode) -> Option<WalkEvent<SyntaxNode>> {
        n.preorder().next()
    }
    pub fn c16_first_with_tokens(n: &SyntaxNode) -> Option<WalkEvent<SyntaxElement>> {
        n.preorder_with_tokens().next()
    }
    pub fn c16_step(it: &mut Preorder, start: &SyntaxNode) -> (Option<WalkEvent<SyntaxNode>>, Option<WalkEvent<SyntaxNode>>) {
        let a = it.next();
        let b = it.next();
        (a, b)
    }
    pub fn c16_step_with_tokens(it: &mut PreorderWithTokens, start: &SyntaxElement) -> (Option<WalkEvent<SyntaxElement>>, Option<WalkEvent<SyntaxElement>>) {
        let a = it.next();
        let b = it.next();
        (a, b)
    }
    pub fn c16_skip(it: &mut Preorder, start: &SyntaxNode) -> Option<(SyntaxNode, Option<WalkEvent<SyntaxNode>>, Option<WalkEvent<SyntaxNode>>)> {
        match it.next()? {
            WalkEvent::Enter(x) => {
                it.skip_subtree();
                let b = it.next();
                let c = it.next();
                Some((x, b, c))
            }
            WalkEvent::Leave(_) => None,
        }
    }
    pub fn c16_skip_with_tokens(
        it: &mut PreorderWithTokens, start: &SyntaxElement,
    ) -> Option<(SyntaxElement, Option<WalkEvent<SyntaxElement>>, Option<WalkEvent<SyntaxElement>>)> {
        match it.next()? {
            WalkEvent::Enter(x) => {
                it.skip_subtree();
                let b = it.next();
                let c = it.next();
                Some((x, b, c))
            }
            WalkEvent::Leave(_) => None,
        }
    }
    // C17
    pub fn c17_children_step(it: &mut SyntaxNodeChildren) -> (Option<SyntaxNode>, Option<SyntaxNode>) {
        let a = it.next();
        let b = it.next();
        (a, b)
    }
    pub fn c17_children_with_tokens_step(it: &mut SyntaxElementChildren) -> (Option<SyntaxElement>, Option<SyntaxElement>) {
        let a = it.next();
        let b = it.next();
        (a, b)
    }
    pub fn c17_three_children(n: &SyntaxNode) -> (Option<SyntaxNode>, Option<SyntaxNode>, Option<SyntaxNode>) {
        let mut it = n.children();
        let a = it.next();
        let b = it.next();
        let c = it.next();
        (a, b, c)
    }
    pub fn c17_three_children_with_tokens(n: &SyntaxNode) -> (Option<SyntaxElement>, Option<SyntaxElement>, Option<SyntaxElement>) {
        let mut it = n.children_with_tokens();
        let a = it.next();
        let b = it.next();
        let c = it.next();
        (a, b, c)
    }
    pub fn c17_children_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool, f: impl Fn(SyntaxNode)) {
        for x in n.children().by_kind(m) {
            f(x)
        }
    }
    pub fn c17_children_with_tokens_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool, f: impl Fn(SyntaxElement)) {
        for x in n.children_with_tokens().by_kind(m) {
            f(x)
        }
    }
    pub fn c17_resume_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        if n.is_mutable() {
            return None;
        }
        let mut it = n.children();
        let a = it.next()?;
        let mut it = it.by_kind(m);
        let b = it.next();
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17_resume_with_tokens_by_kind(
        n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool,
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        if n.is_mutable() {
            return None;
        }
        let mut it = n.children_with_tokens();
        let a = it.next()?;
        let mut it = it.by_kind(m);
        let b = it.next();
        let c = it.next();
        Some((a, b, c))
    }
    // editable trees: the tree may change whenever the callback runs
    pub fn c17m_children(n: &SyntaxNode, f: impl Fn(&SyntaxNode)) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let mut it = n.children();
        let a = it.next()?;
        f(&a);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17m_children_with_tokens(n: &SyntaxNode, f: impl Fn(&SyntaxElement)) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let mut it = n.children_with_tokens();
        let a = it.next()?;
        f(&a);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17m_children_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxNode),
    ) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let mut it = n.children().by_kind(m);
        let a = it.next()?;
        f(&a);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17m_children_with_tokens_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxElement),
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let mut it = n.children_with_tokens().by_kind(m);
        let a = it.next()?;
        f(&a);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17m_resume_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxNode),
    ) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let mut it = n.children();
        let a = it.next()?;
        f(&a);
        let mut it = it.by_kind(m);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17m_resume_with_tokens_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxElement),
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let mut it = n.children_with_tokens();
        let a = it.next()?;
        f(&a);
        let mut it = it.by_kind(m);
        let b = it.next();
        if let Some(b) = &b {
            f(b)
        }
        let c = it.next();
        Some((a, b, c))
    }
    pub fn c17_token_at_offset<T>(mut it: TokenAtOffset<T>) -> (Option<T>, Option<T>, Option<T>) {
        let a = it.next();
        let b = it.next();
        let c = it.next();
        (a, b, c)
    }
    pub fn c17_token_at_offset_len<T>(it: TokenAtOffset<T>) -> (usize, Option<usize>) {
        it.size_hint()
    }
    pub fn c17_token_at_offset_left<T>(it: TokenAtOffset<T>) -> Option<T> {
        it.left_biased()
    }
    pub fn c17_token_at_offset_right<T>(it: TokenAtOffset<T>) -> Option<T> {
        it.right_biased()
    }
    pub fn c17_token_at_offset_map<T, U>(it: TokenAtOffset<T>, f: impl Fn(T) -> U) -> TokenAtOffset<U> {
        it.map(f)
    }
    pub fn c17_walk_event_map<T, U>(ev: WalkEvent<T>, f: impl FnOnce(T) -> U) -> WalkEvent<U> {
        ev.map(f)
    }
    pub fn c17_into_node<N, T>(x: NodeOrToken<N, T>) -> Option<N> {
        x.into_node()
    }
    pub fn c17_into_token<N, T>(x: NodeOrToken<N, T>) -> Option<T> {
        x.into_token()
    }
    pub fn c17_as_node<N, T>(x: &NodeOrToken<N, T>) -> Option<&N> {
        x.as_node()
    }
    pub fn c17_as_token<N, T>(x: &NodeOrToken<N, T>) -> Option<&T> {
        x.as_token()
    }
    pub fn c08_siblings_with_tokens(n: &SyntaxNode, d: Direction, f: impl Fn(SyntaxElement)) {
        for x in n.siblings_with_tokens(d) {
            f(x)
        }
    }
    pub fn c08_token_siblings_with_tokens(n: &SyntaxToken, d: Direction, f: impl Fn(SyntaxElement)) {
        for x in n.siblings_with_tokens(d) {
            f(x)
        }
    }
    pub fn c08_token_ancestors(n: &SyntaxToken, f: impl Fn(SyntaxNode)) {
        for x in n.ancestors() {
            f(x)
        }
    }
    pub fn c08_element_ancestors(n: &SyntaxElement, f: impl Fn(SyntaxNode)) {
        for x in n.ancestors() {
            f(x)
        }
    }
}
pub mod spec {
    use super::*;
    fn step(ev: &WalkEvent<SyntaxNode>, start: &SyntaxNode) -> Option<WalkEvent<SyntaxNode>> {
        match ev {
            WalkEvent::Enter(x) => match x.first_child() {
                Some(c) => Some(WalkEvent::Enter(c)),
                None => Some(WalkEvent::Leave(x.clone())),
            },
            WalkEvent::Leave(x) => {
                if x == start {
                    return None;
                }
                match x.next_sibling() {
                    Some(s) => Some(WalkEvent::Enter(s)),
                    None => x.parent().map(WalkEvent::Leave),
                }
            }
        }
    }
    fn sibling(x: &SyntaxElement) -> Option<SyntaxElement> {
        match x {
            NodeOrToken::Node(x) => x.next_sibling_or_token(),
            NodeOrToken::Token(x) => x.next_sibling_or_token(),
        }
    }
    fn parent(x: &SyntaxElement) -> Option<SyntaxNode> {
        match x {
            NodeOrToken::Node(x) => x.parent(),
            NodeOrToken::Token(x) => x.parent(),
        }
    }
    fn step_t(ev: &WalkEvent<SyntaxElement>, start: &SyntaxElement) -> Option<WalkEvent<SyntaxElement>> {
        match ev {
            WalkEvent::Enter(NodeOrToken::Node(x)) => match x.first_child_or_token() {
                Some(c) => Some(WalkEvent::Enter(c)),
                None => Some(WalkEvent::Leave(NodeOrToken::Node(x.clone()))),
            },
            WalkEvent::Enter(NodeOrToken::Token(x)) => Some(WalkEvent::Leave(NodeOrToken::Token(x.clone()))),
            WalkEvent::Leave(x) => {
                if x == start {
                    return None;
                }
                match sibling(x) {
                    Some(s) => Some(WalkEvent::Enter(s)),
                    None => parent(x).map(|p| WalkEvent::Leave(NodeOrToken::Node(p))),
                }
            }
        }
    }
    pub fn c16_preorder(n: &SyntaxNode, f: impl Fn(WalkEvent<SyntaxNode>)) {
        let mut cur = Some(WalkEvent::Enter(n.clone()));
        while let Some(ev) = cur {
            let next = step(&ev, n);
            f(ev);
            cur = next;
        }
    }
    pub fn c16_preorder_with_tokens(n: &SyntaxNode, f: impl Fn(WalkEvent<SyntaxElement>)) {
        let start = NodeOrToken::Node(n.clone());
        let mut cur = Some(WalkEvent::Enter(start.clone()));
        while let Some(ev) = cur {
            let next = step_t(&ev, &start);
            f(ev);
            cur = next;
        }
    }
    pub fn c16_descendants(n: &SyntaxNode, f: impl Fn(SyntaxNode)) {
        for x in n.preorder().filter_map(|ev| if let WalkEvent::Enter(x) = ev { Some(x) } else { None }) {
            f(x)
        }
    }
    pub fn c16_descendants_with_tokens(n: &SyntaxNode, f: impl Fn(SyntaxElement)) {
        for x in n.preorder_with_tokens().filter_map(|ev| if let WalkEvent::Enter(x) = ev { Some(x) } else { None }) {
            f(x)
        }
    }
    pub fn c16_first(n: &SyntaxNode) -> Option<WalkEvent<SyntaxNode>> {
        Some(WalkEvent::Enter(n.clone()))
    }
    pub fn c16_first_with_tokens(n: &SyntaxNode) -> Option<WalkEvent<SyntaxElement>> {
        Some(WalkEvent::Enter(NodeOrToken::Node(n.clone())))
    }
    pub fn c16_step(it: &mut Preorder, start: &SyntaxNode) -> (Option<WalkEvent<SyntaxNode>>, Option<WalkEvent<SyntaxNode>>) {
        let a = it.next();
        let b = match &a {
            Some(ev) => step(ev, start),
            None => None,
        };
        (a, b)
    }
    pub fn c16_step_with_tokens(it: &mut PreorderWithTokens, start: &SyntaxElement) -> (Option<WalkEvent<SyntaxElement>>, Option<WalkEvent<SyntaxElement>>) {
        let a = it.next();
        let b = match &a {
            Some(ev) => step_t(ev, start),
            None => None,
        };
        (a, b)
    }
    pub fn c16_skip(it: &mut Preorder, start: &SyntaxNode) -> Option<(SyntaxNode, Option<WalkEvent<SyntaxNode>>, Option<WalkEvent<SyntaxNode>>)> {
        match it.next()? {
            WalkEvent::Enter(x) => {
                let b = WalkEvent::Leave(x.clone());
                let c = step(&b, start);
                Some((x, Some(b), c))
            }
            WalkEvent::Leave(_) => None,
        }
    }
    pub fn c16_skip_with_tokens(
        it: &mut PreorderWithTokens, start: &SyntaxElement,
    ) -> Option<(SyntaxElement, Option<WalkEvent<SyntaxElement>>, Option<WalkEvent<SyntaxElement>>)> {
        match it.next()? {
            WalkEvent::Enter(x) => {
                let b = WalkEvent::Leave(x.clone());
                let c = step_t(&b, start);
                Some((x, Some(b), c))
            }
            WalkEvent::Leave(_) => None,
        }
    }
    // C17
    pub fn c17_children_step(it: &mut SyntaxNodeChildren) -> (Option<SyntaxNode>, Option<SyntaxNode>) {
        let a = it.next();
        let b = match &a {
            Some(x) => x.next_sibling(),
            None => None,
        };
        (a, b)
    }
    pub fn c17_children_with_tokens_step(it: &mut SyntaxElementChildren) -> (Option<SyntaxElement>, Option<SyntaxElement>) {
        let a = it.next();
        let b = match &a {
            Some(x) => sibling(x),
            None => None,
        };
        (a, b)
    }
    pub fn c17_three_children(n: &SyntaxNode) -> (Option<SyntaxNode>, Option<SyntaxNode>, Option<SyntaxNode>) {
        let a = n.first_child();
        let b = a.as_ref().and_then(|x| x.next_sibling());
        let c = b.as_ref().and_then(|x| x.next_sibling());
        (a, b, c)
    }
    pub fn c17_three_children_with_tokens(n: &SyntaxNode) -> (Option<SyntaxElement>, Option<SyntaxElement>, Option<SyntaxElement>) {
        let a = n.first_child_or_token();
        let b = a.as_ref().and_then(|x| sibling(x));
        let c = b.as_ref().and_then(|x| sibling(x));
        (a, b, c)
    }
    pub fn c17_children_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool, f: impl Fn(SyntaxNode)) {
        let mut cur = n.first_child_by_kind(&m);
        while let Some(x) = cur {
            let next = x.next_sibling_by_kind(&m);
            f(x);
            cur = next;
        }
    }
    pub fn c17_children_with_tokens_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool, f: impl Fn(SyntaxElement)) {
        let mut cur = n.first_child_or_token_by_kind(&m);
        while let Some(x) = cur {
            let next = sibling_by_kind(&x, &m);
            f(x);
            cur = next;
        }
    }
    fn sibling_by_kind(x: &SyntaxElement, m: &impl Fn(SyntaxKind) -> bool) -> Option<SyntaxElement> {
        match x {
            NodeOrToken::Node(x) => x.next_sibling_or_token_by_kind(m),
            NodeOrToken::Token(x) => x.next_sibling_or_token_by_kind(m),
        }
    }
    pub fn c17_resume_by_kind(n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        if n.is_mutable() {
            return None;
        }
        let a = n.first_child()?;
        let b = a.next_sibling_by_kind(&m);
        let c = b.as_ref().and_then(|x| x.next_sibling_by_kind(&m));
        Some((a, b, c))
    }
    pub fn c17_resume_with_tokens_by_kind(
        n: &SyntaxNode, m: impl Fn(SyntaxKind) -> bool,
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        if n.is_mutable() {
            return None;
        }
        let a = n.first_child_or_token()?;
        let b = sibling_by_kind(&a, &m);
        let c = b.as_ref().and_then(|x| sibling_by_kind(x, &m));
        Some((a, b, c))
    }
    pub fn c17m_children(n: &SyntaxNode, f: impl Fn(&SyntaxNode)) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let a = n.first_child()?;
        let b = a.next_sibling();
        f(&a);
        let c = b.as_ref().and_then(|x| x.next_sibling());
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17m_children_with_tokens(n: &SyntaxNode, f: impl Fn(&SyntaxElement)) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let a = n.first_child_or_token()?;
        let b = sibling(&a);
        f(&a);
        let c = b.as_ref().and_then(|x| sibling(x));
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17m_children_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxNode),
    ) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let a = n.first_child_by_kind(&m)?;
        let b = a.next_sibling_by_kind(&m);
        f(&a);
        let c = b.as_ref().and_then(|x| x.next_sibling_by_kind(&m));
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17m_children_with_tokens_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxElement),
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let a = n.first_child_or_token_by_kind(&m)?;
        let b = sibling_by_kind(&a, &m);
        f(&a);
        let c = b.as_ref().and_then(|x| sibling_by_kind(x, &m));
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17m_resume_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxNode),
    ) -> Option<(SyntaxNode, Option<SyntaxNode>, Option<SyntaxNode>)> {
        let a = n.first_child()?;
        let next = a.next_sibling();
        f(&a);
        let b = match next {
            Some(x) if m(x.kind()) => Some(x),
            Some(x) => x.next_sibling_by_kind(&m),
            None => None,
        };
        let c = match &b {
            Some(x) => x.next_sibling_by_kind(&m),
            None => None,
        };
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17m_resume_with_tokens_by_kind(
        n: &SyntaxNode, m: fn(SyntaxKind) -> bool, f: impl Fn(&SyntaxElement),
    ) -> Option<(SyntaxElement, Option<SyntaxElement>, Option<SyntaxElement>)> {
        let a = n.first_child_or_token()?;
        let next = sibling(&a);
        f(&a);
        let b = match next {
            Some(x) if m(x.kind()) => Some(x),
            Some(x) => sibling_by_kind(&x, &m),
            None => None,
        };
        let c = match &b {
            Some(x) => sibling_by_kind(x, &m),
            None => None,
        };
        if let Some(b) = &b {
            f(b)
        }
        Some((a, b, c))
    }
    pub fn c17_token_at_offset<T>(it: TokenAtOffset<T>) -> (Option<T>, Option<T>, Option<T>) {
        match it {
            TokenAtOffset::None => (None, None, None),
            TokenAtOffset::Single(x) => (Some(x), None, None),
            TokenAtOffset::Between(l, r) => (Some(l), Some(r), None),
        }
    }
    pub fn c17_token_at_offset_len<T>(it: TokenAtOffset<T>) -> (usize, Option<usize>) {
        match it {
            TokenAtOffset::None => (0, Some(0)),
            TokenAtOffset::Single(_) => (1, Some(1)),
            TokenAtOffset::Between(_, _) => (2, Some(2)),
        }
    }
    pub fn c17_token_at_offset_left<T>(it: TokenAtOffset<T>) -> Option<T> {
        match it {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(x) => Some(x),
            TokenAtOffset::Between(l, _) => Some(l),
        }
    }
    pub fn c17_token_at_offset_right<T>(it: TokenAtOffset<T>) -> Option<T> {
        match it {
            TokenAtOffset::None => None,
            TokenAtOffset::Single(x) => Some(x),
            TokenAtOffset::Between(_, r) => Some(r),
        }
    }
    pub fn c17_token_at_offset_map<T, U>(it: TokenAtOffset<T>, f: impl Fn(T) -> U) -> TokenAtOffset<U> {
        match it {
            TokenAtOffset::None => TokenAtOffset::None,
            TokenAtOffset::Single(x) => TokenAtOffset::Single(f(x)),
            TokenAtOffset::Between(l, r) => {
                let l = f(l);
                let r = f(r);
                TokenAtOffset::Between(l, r)
            }
        }
    }
    pub fn c17_walk_event_map<T, U>(ev: WalkEvent<T>, f: impl FnOnce(T) -> U) -> WalkEvent<U> {
        match ev {
            WalkEvent::Enter(x) => WalkEvent::Enter(f(x)),
            WalkEvent::Leave(x) => WalkEvent::Leave(f(x)),
        }
    }
    pub fn c17_into_node<N, T>(x: NodeOrToken<N, T>) -> Option<N> {
        if let NodeOrToken::Node(n) = x { Some(n) } else { None }
    }
    pub fn c17_into_token<N, T>(x: NodeOrToken<N, T>) -> Option<T> {
        if let NodeOrToken::Token(n) = x { Some(n) } else { None }
    }
    pub fn c17_as_node<N, T>(x: &NodeOrToken<N, T>) -> Option<&N> {
        if let NodeOrToken::Node(n) = x { Some(n) } else { None }
    }
    pub fn c17_as_token<N, T>(x: &NodeOrToken<N, T>) -> Option<&T> {
        if let NodeOrToken::Token(n) = x { Some(n) } else { None }
    }
    pub fn c08_siblings_with_tokens(n: &SyntaxNode, d: Direction, f: impl Fn(SyntaxElement)) {
        walk(NodeOrToken::Node(n.clone()), d, f)
    }
    pub fn c08_token_siblings_with_tokens(n: &SyntaxToken, d: Direction, f: impl Fn(SyntaxElement)) {
        walk(NodeOrToken::Token(n.clone()), d, f)
    }
    fn walk(start: SyntaxElement, d: Direction, f: impl Fn(SyntaxElement)) {
        let mut cur = Some(start);
        while let Some(x) = cur {
            let next = match d {
                Direction::Next => sibling(&x),
                Direction::Prev => match &x {
                    NodeOrToken::Node(x) => x.prev_sibling_or_token(),
                    NodeOrToken::Token(x) => x.prev_sibling_or_token(),
                },
            };
            f(x);
            cur = next;
        }
    }
    fn up(mut cur: Option<SyntaxNode>, f: impl Fn(SyntaxNode)) {
        while let Some(x) = cur {
            let next = x.parent();
            f(x);
            cur = next;
        }
    }
    pub fn c08_token_ancestors(n: &SyntaxToken, f: impl Fn(SyntaxNode)) {
        up(n.parent(), f)
    }
    pub fn c08_element_ancestors(n: &SyntaxElement, f: impl Fn(SyntaxNode)) {
        match n {
            NodeOrToken::Node(n) => up(Some(n.clone()), f),
            NodeOrToken::Token(t) => up(t.parent(), f),
        }
    }
}
