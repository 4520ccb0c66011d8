//! Tree edits against a list-of-children model (P23).
use crate::sym;
use oxvg_ast::{
    arena::Allocator,
    element::Element,
    node::Ref,
    parse::roxmltree::parse,
};
use oxvg_collections::{atom::Atom, element::ElementId};

const DOC: &str = "<svg xmlns='http://www.w3.org/2000/svg'><g><rect x='1'/>t<path/></g><!--c--><circle/><use/></svg>";

struct Model<'i, 'a> {
    nodes: Vec<Ref<'i, 'a>>,
    kids: Vec<Vec<usize>>,
    up: Vec<Option<usize>>,
    el: Vec<bool>,
    key: Vec<u8>,
}

impl<'i, 'a> Model<'i, 'a> {
    fn add(&mut self, n: Ref<'i, 'a>, up: Option<usize>) -> usize {
        let k = self.nodes.len();
        self.nodes.push(n);
        self.kids.push(vec![]);
        self.up.push(up);
        self.el.push(Element::new(n).is_some());
        self.key.push(0);
        if let Some(u) = up {
            self.kids[u].push(k);
        }
        k
    }
    fn load(&mut self, n: Ref<'i, 'a>, up: Option<usize>) {
        let k = self.add(n, up);
        let mut c = n.first_child();
        while let Some(m) = c {
            if self.which(c) != Some(99) {
                sym::check(false, "parse: node reached twice");
                return;
            }
            self.load(m, Some(k));
            c = m.next_sibling();
        }
    }
    fn detach(&mut self, n: usize) {
        if let Some(u) = self.up[n].take() {
            self.kids[u].retain(|k| *k != n);
        }
    }
    fn put(&mut self, n: usize, u: usize, at: usize) {
        self.kids[u].insert(at, n);
        self.up[n] = Some(u);
    }
    /// `n` is `m` or above it
    fn above(&self, n: usize, m: usize) -> bool {
        n == m || self.up[m].is_some_and(|u| self.above(n, u))
    }
    fn at(&self, n: usize) -> usize {
        self.kids[self.up[n].unwrap()].iter().position(|k| *k == n).unwrap()
    }
    fn e(&self, n: usize) -> Element<'i, 'a> {
        Element::new(self.nodes[n]).unwrap()
    }
    fn which(&self, n: Option<Ref<'i, 'a>>) -> Option<usize> {
        let n = n?;
        Some(self.nodes.iter().position(|m| std::ptr::eq(*m, n)).unwrap_or(99))
    }
    fn wide(&self, n: usize) -> Vec<usize> {
        let mut q: Vec<usize> = vec![];
        let mut i = 0;
        let mut from = n;
        loop {
            q.extend(self.kids[from].iter().filter(|k| self.el[**k]));
            if i == q.len() {
                return q;
            }
            from = q[i];
            i += 1;
        }
    }
    fn verify(&self, what: &str) {
        for n in 0..self.nodes.len() {
            let r = self.nodes[n];
            let kids = &self.kids[n];
            let bad = |part: &str| sym::check(false, &format!("{what}: {part} of node {n} wrong"));
            if n > 0 {
                if self.which(r.parent_node().map(|e| e.0)) != self.up[n] {
                    bad("parent");
                }
                let i = self.up[n].map(|u| (u, self.at(n)));
                if self.which(r.next_sibling()) != i.and_then(|(u, i)| self.kids[u].get(i + 1).copied()) {
                    bad("next sibling");
                }
                if self.which(r.previous_sibling())
                    != i.and_then(|(u, i)| if i == 0 { None } else { Some(self.kids[u][i - 1]) })
                {
                    bad("previous sibling");
                }
            }
            if self.which(r.first_child()) != kids.first().copied() {
                bad("first child");
            }
            if self.which(r.last_child()) != kids.last().copied() {
                bad("last child");
            }
            if r.child_nodes_iter().take(20).map(|c| self.which(Some(c)).unwrap()).ne(kids.iter().copied()) {
                bad("children");
            }
            if r.child_nodes_iter().rev().take(20).map(|c| self.which(Some(c)).unwrap()).ne(kids.iter().rev().copied()) {
                bad("children from the end");
            }
            let mut it = r.child_nodes_iter();
            let (mut lo, mut hi, mut k) = (0, kids.len(), 0);
            while lo < hi {
                let got = if k % 2 == 0 { it.next() } else { it.next_back() };
                let want = if k % 2 == 0 {
                    lo += 1;
                    kids[lo - 1]
                } else {
                    hi -= 1;
                    kids[hi]
                };
                k += 1;
                if self.which(got) != Some(want) {
                    bad("children from both ends");
                }
            }
            if it.next().is_some() || it.next_back().is_some() {
                bad("end of the children");
            }
            if r.child_node_count() != kids.len() || r.has_child_nodes() == kids.is_empty() {
                bad("number of children");
            }
            for (i, k) in kids.iter().enumerate() {
                if self.which(r.item(i)) != Some(*k) || r.child_index(&self.nodes[*k]) != Some(i) {
                    bad("index of a child");
                }
            }
            if r.item(kids.len()).is_some() {
                bad("child past the end");
            }
            for m in 0..self.nodes.len() {
                if r.contains(self.nodes[m]) != (m != n && self.above(n, m)) {
                    bad("contains");
                }
            }
            if !self.el[n] {
                continue;
            }
            let e = self.e(n);
            let els: Vec<usize> = kids.iter().copied().filter(|k| self.el[*k]).collect();
            let w = |x: Option<Element<'i, 'a>>| self.which(x.map(|x| x.0));
            if e.children().into_iter().map(|c| w(Some(c)).unwrap()).ne(els.iter().copied())
                || e.child_element_count() != els.len()
                || e.has_child_elements() == els.is_empty()
                || w(e.first_element_child()) != els.first().copied()
                || w(e.last_element_child()) != els.last().copied()
            {
                bad("child elements");
            }
            for (i, k) in els.iter().enumerate() {
                if w(self.e(*k).next_element_sibling()) != els.get(i + 1).copied()
                    || w(self.e(*k).previous_element_sibling()) != if i == 0 { None } else { Some(els[i - 1]) }
                {
                    bad("element siblings");
                }
            }
            if e.breadth_first().take(30).map(|c| w(Some(c)).unwrap()).ne(self.wide(n)) {
                bad("descendants");
            }
        }
    }
    /// Picks a node that may become a child of `u`.
    fn child_for(&self, u: usize) -> usize {
        let n = 1 + sym::pick(self.nodes.len() - 1);
        sym::assume(!self.above(n, u));
        n
    }
    fn element(&self) -> usize {
        let els: Vec<usize> = (0..self.nodes.len()).filter(|n| self.el[*n]).collect();
        sym::one(&els)
    }
    fn child_of(&self, u: usize) -> usize {
        sym::assume(!self.kids[u].is_empty());
        sym::one(&self.kids[u])
    }

    fn step(&mut self, allocator: &Allocator<'i, 'a>) -> &'static str {
        const OPS: usize = 19;
        match sym::pick(OPS) {
            0 => {
                let u = self.element();
                let n = self.child_for(u);
                self.e(u).append(self.nodes[n]);
                self.detach(n);
                self.put(n, u, self.kids[u].len());
                "append"
            }
            1 => {
                let u = self.element();
                let n = self.child_for(u);
                self.nodes[u].append_child(self.nodes[n]);
                self.detach(n);
                self.put(n, u, self.kids[u].len());
                "append_child"
            }
            2 => {
                let u = self.element();
                let n = self.child_for(u);
                self.e(u).prepend(self.nodes[n]);
                self.detach(n);
                self.put(n, u, 0);
                "prepend"
            }
            3 => {
                let u = self.element();
                let n = self.child_for(u);
                let i = sym::pick(5);
                self.nodes[u].insert(i, self.nodes[n]);
                self.detach(n);
                self.put(n, u, i.min(self.kids[u].len()));
                "insert"
            }
            4 => {
                let u = self.element();
                let n = self.child_for(u);
                let r = self.child_of(u);
                sym::assume(n != r);
                self.nodes[u].insert_before(self.nodes[n], self.nodes[r]);
                self.detach(n);
                self.put(n, u, self.at(r));
                "insert_before"
            }
            5 => {
                let u = self.element();
                let n = self.child_for(u);
                let r = self.child_of(u);
                sym::assume(n != r);
                self.nodes[u].insert_after(self.nodes[n], &self.nodes[r]);
                self.detach(n);
                self.put(n, u, self.at(r) + 1);
                "insert_after"
            }
            6 => {
                let u = self.element();
                let n = self.child_for(u);
                let r = self.child_of(u);
                sym::assume(n != r);
                self.nodes[u].replace_child(self.nodes[n], &self.nodes[r]);
                self.detach(n);
                let i = self.at(r);
                self.detach(r);
                self.put(n, u, i);
                "replace_child"
            }
            k @ 7..=9 => {
                let r = self.element();
                sym::assume(r != 0);
                let n = match self.up[r] {
                    Some(u) => self.child_for(u),
                    None => 1 + sym::pick(self.nodes.len() - 1),
                };
                sym::assume(n != r);
                match k {
                    7 => self.e(r).replace_with(self.nodes[n]),
                    8 => {
                        self.e(r).before(self.nodes[n]);
                    }
                    _ => self.e(r).after(self.nodes[n]),
                }
                if let Some(u) = self.up[r] {
                    self.detach(n);
                    self.put(n, u, self.at(r) + (k != 8) as usize);
                    if k == 7 {
                        self.detach(r);
                    }
                }
                ["replace_with", "before", "after"][k - 7]
            }
            10 => {
                let n = 1 + sym::pick(self.nodes.len() - 1);
                self.nodes[n].remove();
                self.detach(n);
                "remove"
            }
            11 => {
                let n = self.element();
                sym::assume(n != 0 && self.up[n].is_some());
                self.e(n).flatten();
                let (u, i) = (self.up[n].unwrap(), self.at(n));
                self.detach(n);
                for (k, c) in std::mem::take(&mut self.kids[n]).into_iter().enumerate() {
                    self.put(c, u, i + k);
                }
                "flatten"
            }
            12 => {
                let u = self.element();
                for k in 0..self.key.len() {
                    self.key[k] = 0;
                }
                for k in self.kids[u].clone() {
                    self.key[k] = sym::byte(0, 3);
                }
                self.e(u).sort_child_elements(|a, b| {
                    let (a, b) = (self.which(Some(a.0)).unwrap(), self.which(Some(b.0)).unwrap());
                    self.key[a].cmp(&self.key[b])
                });
                let old = self.kids[u].clone();
                let mut new = vec![];
                let mut c = self.nodes[u].first_child();
                while let Some(n) = c {
                    if new.len() > 20 {
                        break;
                    }
                    new.push(self.which(Some(n)).unwrap());
                    c = n.next_sibling();
                }
                let mut s = new.clone();
                s.sort();
                let mut t = old.clone();
                t.sort();
                sym::check(s == t, "sort: children lost or repeated");
                let place = |k: usize| old.iter().position(|x| *x == k).unwrap();
                let es: Vec<usize> = new.iter().copied().filter(|k| self.el[*k]).collect();
                for w in es.windows(2) {
                    let (a, b) = (self.key[w[0]], self.key[w[1]]);
                    sym::check(a <= b, "sort: elements out of order");
                    if place(w[0]) > place(w[1]) {
                        sym::check(a != b, "sort: equal elements swapped");
                    }
                }
                let ts: Vec<usize> = new.iter().copied().filter(|k| !self.el[*k]).collect();
                for w in ts.windows(2) {
                    sym::check(place(w[0]) < place(w[1]), "sort: text and comments swapped");
                }
                self.kids[u] = new;
                "sort_child_elements"
            }
            13 => {
                let u = self.element();
                for k in self.kids[u].clone() {
                    self.key[k] = sym::flag() as u8;
                }
                self.nodes[u].retain_children(|n| self.key[self.which(Some(n)).unwrap()] != 0);
                for k in self.kids[u].clone() {
                    if self.key[k] == 0 {
                        self.detach(k);
                    }
                }
                "retain_children"
            }
            14 => {
                let u = self.element();
                let mut list = vec![];
                for _ in 0..sym::pick(3) {
                    let n = self.child_for(u);
                    sym::assume(!list.contains(&n));
                    list.push(n);
                }
                self.e(u).replace_children(list.iter().map(|n| self.nodes[*n]).collect::<Vec<_>>().into_iter());
                for k in self.kids[u].clone() {
                    self.detach(k);
                }
                for n in list {
                    self.detach(n);
                    self.put(n, u, self.kids[u].len());
                }
                "replace_children"
            }
            15 => {
                let u = self.element();
                self.nodes[u].empty();
                for k in self.kids[u].clone() {
                    self.detach(k);
                }
                "empty"
            }
            16 => {
                let n = 1 + sym::pick(self.nodes.len() - 1);
                let c = self.nodes[n].clone_node(allocator);
                sym::check(c.node_name() == self.nodes[n].node_name() && c.node_value() == self.nodes[n].node_value(), "clone_node: differs");
                if self.el[n] {
                    let (a, b) = (self.e(n), Element::new(c).unwrap());
                    sym::check(
                        a.attributes().len() == b.attributes().len()
                            && a.attributes().into_iter().zip(b.attributes()).all(|(x, y)| *x == *y),
                        "clone_node: attributes differ",
                    );
                }
                self.add(c, None);
                "clone_node"
            }
            17 => {
                let u = self.element();
                self.nodes[u].set_text_content(Atom::Static("new"), allocator);
                for k in self.kids[u].clone() {
                    self.detach(k);
                }
                let c = self.nodes[u].first_child();
                sym::check(
                    c.is_some_and(|c| self.which(Some(c)) == Some(99) && c.node_value().is_some_and(|v| v.as_str() == "new")),
                    "set_text_content: no text",
                );
                sym::check(self.nodes[u].text_content().is_some_and(|v| v.as_str() == "new"), "set_text_content: other text");
                if let Some(c) = c {
                    self.add(c, Some(u));
                }
                "set_text_content"
            }
            _ => {
                let n = self.element();
                sym::assume(n != 0 && self.up[n].is_some());
                let e = self.e(n).set_local_name(ElementId::Symbol, allocator);
                sym::check(e.local_name().as_str() == "symbol", "set_local_name: other name");
                let (u, i) = (self.up[n].unwrap(), self.at(n));
                self.detach(n);
                let m = self.add(e.0, None);
                self.put(m, u, i);
                for c in std::mem::take(&mut self.kids[n]) {
                    self.up[c] = Some(m);
                    self.kids[m].push(c);
                }
                "set_local_name"
            }
        }
    }
}

pub fn edits() {
    let steps = if sym::deep() { 3 } else { 2 };
    let r = parse(DOC, |dom, allocator| {
        let mut m = Model { nodes: vec![], kids: vec![], up: vec![], el: vec![], key: vec![] };
        let root = dom.find_element().unwrap();
        m.load(root.0, None);
        let doc = root.as_document();
        m.add(doc.create_element(ElementId::Line, &allocator).0, None);
        m.add(doc.create_text_node(Atom::Static("u"), &allocator), None);
        m.verify("parse");
        for _ in 0..steps {
            let what = m.step(&allocator);
            m.verify(what);
        }
        sym::cover(1);
    });
    sym::check(r.is_ok(), "template rejected");
}

/// The tree right after parsing.
pub fn parsed() {
    let mut s = String::from("<svg xmlns='http://www.w3.org/2000/svg'>");
    for _ in 0..3 {
        s.push_str(sym::one(&[
            "",
            "<style>a{fill:red}</style>",
            "<style><![CDATA[a{fill:red}]]>b{fill:blue}</style>",
            "<style>{{{</style>",
            "<style><!--c-->a{fill:red}<!--d--></style>",
            "<style type='x'>a</style>",
            "<g>t<!--c-->u<rect/></g>",
            "<![CDATA[x]]>",
            "<?p q?>",
        ]));
        s.push(sym::of(b"x \n") as char);
    }
    s.push_str("</svg>");
    let r = parse(&s, |dom, allocator| {
        let mut m = Model { nodes: vec![], kids: vec![], up: vec![], el: vec![], key: vec![] };
        let root = dom.find_element().unwrap();
        m.load(root.0, None);
        m.verify("parse");
        let mut n = 0;
        for node in allocator.iter() {
            n += (m.which(Some(node)) != Some(99)) as usize;
        }
        sym::check(n == m.nodes.len(), "parse: nodes outside the tree");
        sym::cover(1);
    });
    sym::check(r.is_ok(), "template rejected");
}
