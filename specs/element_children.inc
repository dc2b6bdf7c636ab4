spec fn nxt(i: int, n: int) -> int { if i + 1 == n { 0 } else { i + 1 } }
spec fn prv(i: int, n: int) -> int { if i == 0 { n - 1 } else { i - 1 } }

// the reference operations of an ordered child list (what the browser does)
spec fn list_remove(s: Seq<u64>, x: u64) -> Seq<u64> {
    if s.contains(x) { s.remove(s.index_of(x)) } else { s }
}
spec fn list_insert_before(s: Seq<u64>, r: Option<u64>, x: u64) -> Seq<u64> {
    let t = list_remove(s, x);
    match r {
        Some(y) => t.insert(t.index_of(y), x),
        None => t.push(x),
    }
}

//@file crates/vertigo-cli/src/serve/html/element_children.rs
//@item struct ChildrenNode
struct ChildrenNode {
    left: u64,
    right: u64,
}
//@end
//@item struct ElementChildren
pub struct ElementChildren {
    first_child: Option<u64>,
    childs: HashMap<u64, ChildrenNode>,
}
//@end

spec fn repr(e: ElementChildren, s: Seq<u64>) -> bool {
    &&& s.no_duplicates()
    &&& e.childs@.dom() =~= s.to_set()
    &&& e.first_child == if s.len() == 0 { None::<u64> } else { Some(s[0]) }
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] e.childs@[s[i]]) == ChildrenNode { left: s[prv(i, s.len() as int)], right: s[nxt(i, s.len() as int)] }
}

impl ElementChildren {
    // the abstract value: the child ids in document order
    spec fn seq(self) -> Seq<u64> { choose|s: Seq<u64>| repr(self, s) }
    spec fn wf(self) -> bool { repr(self, self.seq()) }
}

proof fn lemma_unique(e: ElementChildren, s: Seq<u64>, t: Seq<u64>)
    requires repr(e, s), repr(e, t),
    ensures s == t,
{
    s.unique_seq_to_set();
    t.unique_seq_to_set();
    assert(s.len() == t.len());
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { lemma_unique_at(e, s, t, i); }
    assert(s =~= t);
}
proof fn lemma_unique_at(e: ElementChildren, s: Seq<u64>, t: Seq<u64>, i: int)
    requires repr(e, s), repr(e, t), s.len() == t.len(), 0 <= i < s.len(),
    ensures s[i] == t[i],
    decreases i,
{
    if i > 0 {
        lemma_unique_at(e, s, t, i - 1);
        assert(e.childs@[s[i - 1]].right == s[i]);
        assert(e.childs@[t[i - 1]].right == t[i]);
    }
}
proof fn lemma_is(e: ElementChildren, s: Seq<u64>)
    requires repr(e, s),
    ensures e.wf(), e.seq() == s,
{
    assert(repr(e, e.seq()));
    lemma_unique(e, s, e.seq());
}

// linking x on the left of s[i]: what insert_on_left must have done to the map
proof fn lemma_link(e: ElementChildren, f: ElementChildren, s: Seq<u64>, i: int, x: u64)
    requires
        repr(e, s), 0 <= i < s.len(), !s.contains(x),
        f.first_child == e.first_child,
        f.childs@.dom() =~= e.childs@.dom().insert(x),
        f.childs@[x] == (ChildrenNode { left: s[prv(i, s.len() as int)], right: s[i] }),
        forall|y: u64| #[trigger] e.childs@.dom().contains(y) ==> f.childs@[y] == (ChildrenNode {
            left: if y == s[i] { x } else { e.childs@[y].left },
            right: if y == s[prv(i, s.len() as int)] { x } else { e.childs@[y].right },
        }),
    ensures
        f.wf(),
        f.seq() == if i == 0 { s.push(x) } else { s.insert(i, x) },
{
    let n = s.len() as int;
    let p = if i == 0 { n } else { i };
    let t = if i == 0 { s.push(x) } else { s.insert(i, x) };
    let m = n + 1;
    assert(t.len() == m);
    assert(t[p] == x);
    assert forall|k: int| 0 <= k < m implies t[k] == if k < p { s[k] } else if k == p { x } else { s[k - 1] } by {}
    assert forall|k: int| 0 <= k < n implies #[trigger] s[k] != x by { assert(s.contains(s[k])); }
    assert(t.no_duplicates());
    assert forall|y: u64| #[trigger] f.childs@.dom().contains(y) <==> t.to_set().contains(y) by {
        assert(e.childs@.dom().contains(y) <==> s.to_set().contains(y));
        if s.contains(y) { let k = s.index_of(y); assert(s[k] == y); assert(t[if k < p { k } else { k + 1 }] == y); }
        if t.contains(y) && y != x { let k = t.index_of(y); assert(t[k] == y); assert(s[if k < p { k } else { k - 1 }] == y); }
    }
    assert(f.childs@.dom() =~= t.to_set());
    assert forall|k: int| 0 <= k < m implies (#[trigger] f.childs@[t[k]]) == (ChildrenNode { left: t[prv(k, m)], right: t[nxt(k, m)] }) by {
        if k != p {
            let o = if k < p { k } else { k - 1 };
            assert(t[k] == s[o]);
            assert(s.to_set().contains(s[o]));
            assert(e.childs@[s[o]] == (ChildrenNode { left: s[prv(o, n)], right: s[nxt(o, n)] }));
            assert(s[o] == s[i] <==> o == i);
            assert(s[o] == s[prv(i, n)] <==> o == prv(i, n));
        }
    }
    assert(repr(f, t));
    lemma_is(f, t);
}

// unlinking s[i]: what remove must have done
proof fn lemma_unlink(e: ElementChildren, f: ElementChildren, s: Seq<u64>, i: int)
    requires
        repr(e, s), 0 <= i < s.len(), s.len() > 1,
        f.first_child == Some(if i == 0 { s[1] } else { s[0] }),
        f.childs@.dom() =~= e.childs@.dom().remove(s[i]),
        forall|y: u64| #[trigger] f.childs@.dom().contains(y) ==> f.childs@[y] == (ChildrenNode {
            left: if y == s[nxt(i, s.len() as int)] { s[prv(i, s.len() as int)] } else { e.childs@[y].left },
            right: if y == s[prv(i, s.len() as int)] { s[nxt(i, s.len() as int)] } else { e.childs@[y].right },
        }),
    ensures f.wf(), f.seq() == s.remove(i),
{
    let n = s.len() as int;
    let t = s.remove(i);
    let m = n - 1;
    assert forall|k: int| 0 <= k < m implies t[k] == if k < i { s[k] } else { s[k + 1] } by {}
    assert(t.no_duplicates());
    assert forall|y: u64| #[trigger] f.childs@.dom().contains(y) <==> t.to_set().contains(y) by {
        assert(e.childs@.dom().contains(y) <==> s.to_set().contains(y));
        if s.contains(y) && y != s[i] { let k = s.index_of(y); assert(s[k] == y); assert(t[if k < i { k } else { k - 1 }] == y); }
        if t.contains(y) { let k = t.index_of(y); assert(t[k] == y); assert(s[if k < i { k } else { k + 1 }] == y); }
    }
    assert(f.childs@.dom() =~= t.to_set());
    assert forall|k: int| 0 <= k < m implies (#[trigger] f.childs@[t[k]]) == (ChildrenNode { left: t[prv(k, m)], right: t[nxt(k, m)] }) by {
        let o = if k < i { k } else { k + 1 };
        assert(t[k] == s[o]);
        assert(t.to_set().contains(t[k]));
        assert(e.childs@[s[o]] == (ChildrenNode { left: s[prv(o, n)], right: s[nxt(o, n)] }));
        assert(s[o] == s[nxt(i, n)] <==> o == nxt(i, n));
        assert(s[o] == s[prv(i, n)] <==> o == prv(i, n));
    }
    assert(repr(f, t));
    lemma_is(f, t);
}

// the circle s.push(x) entered one step earlier is s.insert(0, x)
proof fn lemma_rotate(e: ElementChildren, f: ElementChildren, s: Seq<u64>, x: u64)
    requires
        s.len() > 0,
        repr(e, s.push(x)), f.childs == e.childs, f.first_child == Some(x),
    ensures f.wf(), f.seq() == s.insert(0, x),
{
    let u = s.push(x);
    let t = s.insert(0, x);
    let m = s.len() as int + 1;
    assert forall|k: int| 0 <= k < m implies t[k] == u[prv(k, m)] by {}
    assert forall|k: int| 0 <= k < m implies u[k] == t[nxt(k, m)] by {}
    assert(t.no_duplicates());
    assert forall|y: u64| #[trigger] u.to_set().contains(y) <==> t.to_set().contains(y) by {
        if u.contains(y) { let k = u.index_of(y); assert(t[nxt(k, m)] == y); }
        if t.contains(y) { let k = t.index_of(y); assert(u[prv(k, m)] == y); }
    }
    assert(u.to_set() =~= t.to_set());
    assert forall|k: int| 0 <= k < m implies (#[trigger] f.childs@[t[k]]) == (ChildrenNode { left: t[prv(k, m)], right: t[nxt(k, m)] }) by {
        let o = prv(k, m);
        assert(t[k] == u[o]);
        assert(e.childs@[u[o]] == (ChildrenNode { left: u[prv(o, m)], right: u[nxt(o, m)] }));
    }
    assert(repr(f, t));
    lemma_is(f, t);
}

impl ElementChildren {
//@item impl ElementChildren :: fn new
    pub fn new() -> «(r:» ElementChildren «)
        ensures r.wf(), r.seq() == Seq::<u64>::empty(),»
    {
        «let r =» ElementChildren {
            first_child: None,
            childs: HashMap::new(),
        }«;
        proof { lemma_is(r, Seq::<u64>::empty()); }
        r»
    }
//@end

//@item impl ElementChildren :: fn childs
    pub fn childs(&self) -> «(r:» Vec<u64> «)
        requires self.wf(),
        ensures r@ == self.seq(),»
    {
        «let ghost s = self.seq();
        proof { s.unique_seq_to_set(); }»
        if self.childs.is_empty() {
            return Vec::new();
        }

        let mut result = Vec::new();

        let Some(mut wsk_id) = self.first_child else {
            unreachable!();
        };

        for _ in «it:» 0..self.childs.len()
            «invariant
                s == self.seq(), repr(*self, s), s.len() == self.childs@.len(), s.len() > 0,
                result@ =~= s.take(it.index@),
                wsk_id == s[if it.index@ == s.len() { 0 } else { it.index@ }],»
        {
            «assert(s.to_set().contains(wsk_id));»
            let Some(node) = self.childs.get(&wsk_id) else {
                unreachable!();
            };

            result.push(wsk_id);
            wsk_id = node.right;
        }

        //We expect to turn a full circle
        ⟦assert_eq!(Some(wsk_id), self.first_child);⇒vx_assert(Some(wsk_id) == self.first_child);⟧

        result
    }
//@end

//@item impl ElementChildren :: fn insert_on_left
    fn insert_on_left(&mut self, node_right_id: u64, node_id: u64)
        «requires
            old(self).wf(),
            old(self).seq().contains(node_right_id),
            !old(self).seq().contains(node_id),
        ensures
            final(self).wf(),
            // left of the first node is the end of the circle
            final(self).seq() == { let s = old(self).seq(); let i = s.index_of(node_right_id); if i == 0 { s.push(node_id) } else { s.insert(i, node_id) } },»
    {
        «let ghost s = self.seq();
        let ghost n = s.len() as int;
        let ghost i = s.index_of(node_right_id);
        proof { assert(repr(*self, s)); assert(s.to_set().contains(node_right_id)); assert(s[i] == node_right_id); assert(s.to_set().contains(s[prv(i, n)])); }»
        let Some(node_right) = self.childs.get_mut(&node_right_id) else {
            unreachable!();
        };

        let node_left_id = node_right.left;
        node_right.left = node_id;

        let Some(node_left) = self.childs.get_mut(&node_left_id) else {
            unreachable!();
        };
        node_left.right = node_id;

        self.childs.insert(
            node_id,
            ChildrenNode {
                left: node_left_id,
                right: node_right_id,
            },
        );
        «proof { lemma_link(*old(self), *self, s, i, node_id); }»
    }
//@end

//@item impl ElementChildren :: fn insert_before
    pub fn insert_before(&mut self, ref_id: Option<u64>, child: u64)
        «requires
            old(self).wf(),
            ref_id matches Some(r) ==> r != child && old(self).seq().contains(r),
        ensures
            final(self).wf(),
            final(self).seq() == list_insert_before(old(self).seq(), ref_id, child),»
    {
        «let ghost s0 = self.seq();
        let ghost t = list_remove(s0, child);
        proof {
            assert forall|y: u64| y != child && s0.contains(y) implies t.contains(y) by {
                if s0.contains(child) { let i = s0.index_of(child); let k = s0.index_of(y); assert(s0[k] == y); assert(t[if k < i { k } else { k - 1 }] == y); }
            }
            assert(!t.contains(child));
        }»
        if ref_id == Some(child) {
            ⟦panic!("ref_id must not be equal to child_id, ref_id={ref_id:?}, child={child:?}")⇒vx_assert(false)⟧;
        }

        self.remove(child);
        «proof { assert(self.seq() == t); assert(repr(*self, t)); t.unique_seq_to_set(); }»

        let right_node_id = {
            if let Some(ref_id) = ref_id {
                ref_id
            } else if let Some(first_child) = self.first_child {
                first_child
            } else {
                ⟦assert_eq!(self.childs.len(), 0);⇒vx_assert(self.childs.len() == 0);⟧

                self.first_child = Some(child);
                self.childs.insert(
                    child,
                    ChildrenNode {
                        left: child,
                        right: child,
                    },
                );
                «proof {
                    let u = t.push(child);
                    assert(u.to_set().contains(u[0]));
                    assert(repr(*self, u)); lemma_is(*self, u); }»
                return;
            }
        };

        «let ghost e1 = *self;»
        self.insert_on_left(right_node_id, child);
        «let ghost e2 = *self;
        proof { assert(repr(e2, e2.seq())); }»

        if self.first_child == ref_id {
            self.first_child = Some(child);
        }
        «proof {
            if ref_id == Some(t[0]) { lemma_rotate(e2, *self, t, child); }
        }»
    }
//@end

//@item impl ElementChildren :: fn remove
    pub fn remove(&mut self, node_id: u64)
        «requires old(self).wf(),
        ensures
            final(self).wf(),
            final(self).seq() == list_remove(old(self).seq(), node_id),»
    {
        «let ghost s = self.seq();
        let ghost n = s.len() as int;
        let ghost i = s.index_of(node_id);
        proof {
            assert(repr(*self, s));
            assert(s.to_set().contains(node_id) <==> s.contains(node_id));
            if s.contains(node_id) {
                assert(s[i] == node_id);
                assert(s.to_set().contains(s[prv(i, n)]));
                assert(s.to_set().contains(s[nxt(i, n)]));
                assert(self.childs@[s[i]] == (ChildrenNode { left: s[prv(i, n)], right: s[nxt(i, n)] }));
            }
        }»
        let Some(node) = self.childs.remove(&node_id) else {
            «proof { assert(self.childs@ =~= old(self).childs@); lemma_is(*self, s); }»
            return;
        };

        if node.left == node_id {
            ⟦assert_eq!(node.right, node_id);⇒vx_assert(node.right == node_id);⟧

            self.first_child = None;
            «proof { assert(n == 1); let u = s.remove(i); assert(u =~= Seq::<u64>::empty());
                assert(self.childs@.dom() =~= u.to_set()) by {
                    assert forall|y: u64| !#[trigger] self.childs@.dom().contains(y) by { if s.to_set().contains(y) { assert(s.contains(y)); } }
                }
                assert(repr(*self, u)); lemma_is(*self, u); }»
            return;
        }

        let Some(node_right) = self.childs.get_mut(&node.right) else {
            unreachable!();
        };

        node_right.left = node.left;

        let Some(node_left) = self.childs.get_mut(&node.left) else {
            unreachable!();
        };

        node_left.right = node.right;

        if self.first_child == Some(node_id) {
            self.first_child = Some(node.right);
        }
        «proof { lemma_unlink(*old(self), *self, s, i); }»
    }
//@end
}

