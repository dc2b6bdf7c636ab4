fn vx_extend<T>(v: &mut Vec<T>, mut w: Vec<T>)
    ensures final(v)@ == old(v)@ + w@,
{ v.append(&mut w); }

// ---- trusted: what is sent to the host ------------------------------------------------------------------------
pub struct CallbackId(u64);
#[verifier::external_body]
pub struct StaticString(());
impl StaticString {
    pub uninterp spec fn view(self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct JsJson(());
pub uninterp spec fn json_of(c: DriverDomCommand) -> JsJson;
pub uninterp spec fn json_list(c: Seq<JsJson>) -> JsJson;
impl JsJson {
    #[allow(non_snake_case)]
    #[verifier::external_body]
    fn List(v: Vec<JsJson>) -> (r: JsJson) ensures r == json_list(v@) { unimplemented!() }
}
impl DriverDomCommand {
    // into_string is under contract in the unit dom_command
    #[verifier::external_body]
    fn into_string(self) -> (r: JsJson) ensures r == json_of(self) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// the host, with the history of the bulk updates sent to it
pub struct ApiImport { ghost sent: Seq<JsJson> }
impl ApiImport {
    #[verifier::external_body]
    fn dom_bulk_update(&mut self, value: JsJson)
        ensures final(self).sent == old(self).sent.push(value),
    { unimplemented!() }
}

//@file crates/vertigo/src/driver_module/dom_command.rs
//@item enum DriverDomCommand
pub enum DriverDomCommand {
    CreateNode {
        id: DomId,
        name: StaticString,
    },
    CreateText {
        id: DomId,
        value: String,
    },
    UpdateText {
        id: DomId,
        value: String,
    },
    SetAttr {
        id: DomId,
        name: StaticString,
        value: String,
    },
    RemoveAttr {
        id: DomId,
        name: StaticString,
    },
    RemoveNode {
        id: DomId,
    },
    RemoveText {
        id: DomId,
    },
    InsertBefore {
        parent: DomId,
        child: DomId,
        ref_id: Option<DomId>,
    },
    InsertCss {
        selector: String,
        value: String,
    },

    CreateComment {
        id: DomId,
        value: String,
    },
    RemoveComment {
        id: DomId,
    },
    CallbackAdd {
        id: DomId,
        event_name: String,
        callback_id: CallbackId,
    },
    CallbackRemove {
        id: DomId,
        event_name: String,
        callback_id: CallbackId,
    },
}
//@end

// the commands that remove a node
spec fn removes(c: DriverDomCommand) -> bool {
    c is RemoveNode || c is RemoveText || c is RemoveComment
}
// what a batch is sent as: everything else in its recorded order, then the removals in theirs
spec fn sorted(s: Seq<DriverDomCommand>) -> Seq<DriverDomCommand> {
    s.filter(|c: DriverDomCommand| !removes(c)) + s.filter(|c: DriverDomCommand| removes(c))
}

impl DriverDomCommand {
//@item impl DriverDomCommand :: fn is_event
    fn is_event(&self) -> «(r:» bool«)
        ensures r == removes(*self),»
    {
        matches!(
            self,
            Self::RemoveNode { .. } | Self::RemoveText { .. } | Self::RemoveComment { .. }
        )
    }
//@end
}

//@item fn sort_commands
pub fn sort_commands(list: Vec<DriverDomCommand>) -> «(r:» Vec<DriverDomCommand>«)
    ensures r@ == sorted(list@),»
{
    let mut dom = Vec::new();
    let mut events = Vec::new();
«    let ghost s = list@;
    let ghost keep = |c: DriverDomCommand| !removes(c);
    let ghost drop = |c: DriverDomCommand| removes(c);
    assert(s.take(0) =~= Seq::<DriverDomCommand>::empty());
    reveal(Seq::filter);»
    for command in «it:» list
«        invariant
            it.seq() == s,
            keep == (|c: DriverDomCommand| !removes(c)), drop == (|c: DriverDomCommand| removes(c)),
            dom@ == s.take(it.index@ as int).filter(keep),
            events@ == s.take(it.index@ as int).filter(drop),»
    {
«        proof {
            let p = s.take(it.index@ as int);
            assert(s.take(it.index@ + 1) =~= p.push(command));
            Seq::lemma_filter_push(p, command, keep);
            Seq::lemma_filter_push(p, command, drop);
        }»
        if command.is_event() {
            events.push(command);
        } else {
            dom.push(command);
        }
    }
«    assert(s.take(s.len() as int) =~= s);»
    ⟦dom.extend(events)⇒vx_extend(&mut dom, events)⟧;

    dom
}
//@end

// the reordering is a permutation
proof fn theorem_permutation(s: Seq<DriverDomCommand>)
    ensures sorted(s).to_multiset() == s.to_multiset(), sorted(s).len() == s.len(),
    decreases s.len(),
{
    let keep = |c: DriverDomCommand| !removes(c);
    let drop = |c: DriverDomCommand| removes(c);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(Seq::filter);
    if s.len() == 0 {
        assert(sorted(s) =~= s);
    } else {
        let t = s.drop_last();
        let x = s.last();
        theorem_permutation(t);
        assert(s =~= t.push(x));
        Seq::lemma_filter_push(t, x, keep);
        Seq::lemma_filter_push(t, x, drop);
        vstd::seq_lib::lemma_multiset_commutative(t.filter(keep), t.filter(drop));
        vstd::seq_lib::lemma_multiset_commutative(s.filter(keep), s.filter(drop));
        assert(sorted(s).to_multiset() =~= s.to_multiset());
    }
}

//@file crates/vertigo/src/driver_module/dom.rs
//@item enum StateInitiation
enum StateInitiation {
    Waiting { counter: u32 },
    Ready,
}
//@end

// derive(PartialEq)
impl StateInitiation {
    #[verifier::external_body]
    fn vx_eq(a: &Self, b: &Self) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
}

// the state machine: buffering while a request of the initial rendering runs
spec fn after_up(s: StateInitiation) -> StateInitiation {
    match s { StateInitiation::Waiting { counter } => StateInitiation::Waiting { counter: (counter + 1) as u32 }, StateInitiation::Ready => s }
}
spec fn settles(s: StateInitiation) -> bool { s == (StateInitiation::Waiting { counter: 1 }) }
spec fn after_down(s: StateInitiation) -> StateInitiation {
    match s {
        StateInitiation::Waiting { counter } => if counter == 1 { StateInitiation::Ready } else { StateInitiation::Waiting { counter: (counter - 1) as u32 } },
        StateInitiation::Ready => s,
    }
}

impl StateInitiation {
//@item impl StateInitiation :: fn new
    pub fn new() -> «(r:» Self«)
        ensures r == (StateInitiation::Waiting { counter: 0 }),»
    {
        StateInitiation::Waiting { counter: 0 }
    }
//@end
//@item impl StateInitiation :: fn is_ready
    pub fn is_ready(&self) -> «(r:» bool«)
        ensures r == (*self is Ready),»
    {
        ⟦&Self::Ready == self⇒Self::vx_eq(&Self::Ready, self)⟧
    }
//@end
//@item impl StateInitiation :: fn up
    pub fn up(&mut self)
«        requires !(*old(self) == (StateInitiation::Waiting { counter: u32::MAX })),
        ensures *final(self) == after_up(*old(self)),»
    {
        if let Self::Waiting { counter } = self {
            *counter += 1;
        }
    }
//@end
//@item impl StateInitiation :: fn down
    pub fn down(&mut self) -> «(r:» bool«)
        requires !(*old(self) == (StateInitiation::Waiting { counter: 0 })),
        ensures *final(self) == after_down(*old(self)), r == settles(*old(self)),»
    {
        let send_commands = if let Self::Waiting { counter } = self {
            *counter -= 1;
            *counter == 0
        } else {
            false
        };

        if send_commands {
            *self = Self::Ready;
        }

        send_commands
    }
//@end
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cell<T>(T);
impl Cell<bool> {
    #[verifier::external_body] fn get(&self) -> bool { unimplemented!() }
    #[verifier::external_body] fn new(b: bool) -> Self { unimplemented!() }
}
//@item struct Commands
struct Commands {
    state: ValueMut<StateInitiation>,
    api: ApiImport,
    commands: VecMut<DriverDomCommand>,
    // For testing/debuging purposes
    log_enabled: Cell<bool>,
    log_vec: VecMut<DriverDomCommand>,
}
//@end

// what the host gets for a buffer of recorded commands: nothing for an empty one
spec fn sends(sent: Seq<JsJson>, buffer: Seq<DriverDomCommand>) -> Seq<JsJson> {
    if buffer.len() == 0 { sent } else { sent.push(json_list(sorted(buffer).map_values(|c: DriverDomCommand| json_of(c)))) }
}

impl Commands {
    spec fn rest(self, o: Self) -> bool { self.log_enabled == o.log_enabled && self.log_vec == o.log_vec }
    spec fn flushed(self, o: Self) -> bool {
        self.commands@.len() == 0 && self.api.sent == sends(o.api.sent, o.commands@)
    }
    spec fn unsent(self, o: Self) -> bool {
        self.commands@ == o.commands@ && self.api.sent == o.api.sent
    }

//@item impl Commands :: fn new
    pub fn new(api: ⟦&ApiImport⇒ApiImport⟧) -> «(r:» ⟦&'static Self⇒Self⟧«)
        ensures r.state@ == (StateInitiation::Waiting { counter: 0 }), r.commands@.len() == 0, r.api.sent == api.sent,»
    {
        ⟦Box::leak(Box::new(⇒⟧Commands {
            state: ValueMut::new(StateInitiation::new()),
            api: api⟦.clone()⇒⟧,
            commands: VecMut::new(),
            log_enabled: Cell::new(false),
            log_vec: VecMut::new(),
        }⟦))⇒⟧
    }
//@end
//@item impl Commands :: fn add_command
    fn add_command(⟦&self⇒&mut self⟧, command: DriverDomCommand)
«        ensures
            final(self).commands@ == old(self).commands@.push(command),
            final(self).api.sent == old(self).api.sent, final(self).state == old(self).state,»
    {
        if self.log_enabled.get() {
            self.log_vec.push(command.clone());
        }

        self.commands.push(command);
    }
//@end
//@item impl Commands :: fn flush_dom_changes_inner
    fn flush_dom_changes_inner(⟦&self⇒&mut self⟧)
«        ensures final(self).flushed(*old(self)), final(self).state == old(self).state,»
    {
        let state = self.commands.take();

        if !state.is_empty() {
            let mut out = Vec::<JsJson>::new();

            let state = sort_commands(state);
«            let ghost s = state@;»
            for command in «it:» state
«                invariant it.seq() == s, out@ =~= s.take(it.index@ as int).map_values(|c: DriverDomCommand| json_of(c)),»
            {
«                assert(s.take(it.index@ + 1) =~= s.take(it.index@ as int).push(command));»
                out.push(command.into_string());
            }
«            assert(s.take(s.len() as int) =~= s);»

            let out = JsJson::List(out);
            self.api.dom_bulk_update(out);
        }
    }
//@end
//@item impl Commands :: fn flush_dom_changes
    fn flush_dom_changes(⟦&self⇒&mut self⟧)
«        ensures
            final(self).state == old(self).state,
            old(self).state@ is Ready ==> final(self).flushed(*old(self)),
            !(old(self).state@ is Ready) ==> final(self).unsent(*old(self)),»
    {
        let is_ready = self.state.map(|state«: &StateInitiation»| «-> (b: bool) ensures b == (*state is Ready) {» state.is_ready() «}»);

        if is_ready {
            self.flush_dom_changes_inner();
        }
    }
//@end
//@item impl Commands :: fn fetch_up
    fn fetch_up(⟦&self⇒&mut self⟧)
«        requires !(old(self).state@ == (StateInitiation::Waiting { counter: u32::MAX })),
        ensures final(self).state@ == after_up(old(self).state@), final(self).unsent(*old(self)),»
    {
        self.state.change(|state«: &mut StateInitiation»|
«            requires !(*old(state) == (StateInitiation::Waiting { counter: u32::MAX })),
            ensures *final(state) == after_up(*old(state)),»
        {
            state.up();
        });
    }
//@end
//@item impl Commands :: fn fetch_down
    fn fetch_down(⟦&self⇒&mut self⟧)
«        requires !(old(self).state@ == (StateInitiation::Waiting { counter: 0 })),
        ensures
            final(self).state@ == after_down(old(self).state@),
            settles(old(self).state@) ==> final(self).flushed(*old(self)),
            !settles(old(self).state@) ==> final(self).unsent(*old(self)),»
    {
        let send_commands = self.state.change(|state«: &mut StateInitiation»| «-> (b: bool)
            requires !(*old(state) == (StateInitiation::Waiting { counter: 0 })),
            ensures *final(state) == after_down(*old(state)), b == settles(*old(state)),
        {» state.down() «}»);

        if send_commands {
            self.flush_dom_changes_inner();
        }
    }
//@end
}
