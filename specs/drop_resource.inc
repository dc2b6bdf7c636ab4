mod handle {
    use super::*;
    #[verifier::external_body]
    pub struct Action { _p: () }
    #[verifier::external_body]
    pub struct Held { _p: () }
    pub struct Done { pub run: Ghost<Seq<Action>> }
    impl Action {
        #[verifier::external_body]
        fn run(self, w: &mut Done)
            ensures final(w).run@ == old(w).run@.push(self),
        { unimplemented!() }
    }
    // std::mem::take on an option
    fn vx_take_opt<T>(o: &mut Option<T>) -> (r: Option<T>)
        ensures r == *old(o), *final(o) == None::<T>,
    { std::mem::replace(o, None) }
//@file crates/vertigo/src/computed/drop_resource.rs
//@item enum DropResource
pub enum DropResource {
    Fun(⟦Option<Box<dyn FnOnce()>>⇒Option<Action>⟧),
    Struct(⟦Box<dyn Any>⇒Held⟧),
}
//@end
impl DropResource {
//@item impl DropResource :: fn new
    pub fn new⟦<F: FnOnce() + 'static>⇒⟧(drop_fun: ⟦F⇒Action⟧) -> «(r:» DropResource «)
        ensures r == DropResource::Fun(Some(drop_fun)),»
    {
        DropResource::Fun(Some(⟦Box::new(drop_fun)⇒drop_fun⟧))
    }
//@end
//@item impl Drop for DropResource :: fn drop
    fn drop(&mut self«, w: &mut Done»)
        «ensures
            *old(self) matches DropResource::Fun(Some(a)) ==> final(w).run@ == old(w).run@.push(a) && *final(self) == DropResource::Fun(None),
            !(*old(self) matches DropResource::Fun(Some(a))) ==> *final(w) == *old(w) && *final(self) == *old(self),»
    {
        match self {
            Self::Fun(inner) => {
                let drop_fun = ⟦std::mem::take⇒vx_take_opt⟧(inner);

                if let Some(drop_fun) = drop_fun {
                    drop_fun⟦()⇒.run(w)⟧;
                }
            }
            Self::Struct(_) => {}
        }
    }
//@end
}
}

