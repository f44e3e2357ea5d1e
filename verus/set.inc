// std::collections::HashSet of values compared through their view (trusted contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VSet<T> {
    t: T,
}

// the order in which a set is walked: every member once
pub uninterp spec fn set_order<T: View>(s: VSet<T>) -> Seq<T>;

pub open spec fn views<T: View>(s: Seq<T>) -> Seq<T::V> {
    s.map_values(|x: T| x@)
}

pub open spec fn view_set<T: View>(s: Seq<T>) -> Set<T::V> {
    views(s).to_set()
}

pub broadcast axiom fn set_order_is<T: View>(s: VSet<T>)
    ensures
        view_set(set_order(s)) == s@,
        views(#[trigger] set_order(s)).no_duplicates(),
        set_order(s).len() == s@.len(),
;

impl<T: View> View for VSet<T> {
    type V = Set<T::V>;

    uninterp spec fn view(&self) -> Set<T::V>;
}

impl<T: View> VSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r@ == Set::<T::V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains(&self, k: &T) -> (r: bool)
        ensures
            r == self@.contains(k@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (r: bool)
        ensures
            final(self)@ == old(self)@.insert(k@),
            r == !old(self)@.contains(k@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &T) -> (r: bool)
        ensures
            final(self)@ == old(self)@.remove(k@),
            r == old(self)@.contains(k@),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn take(&mut self, k: &T) -> (r: Option<T>)
        ensures
            final(self)@ == old(self)@.remove(k@),
            r is Some == old(self)@.contains(k@),
            r matches Some(x) ==> x@ == k@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures
            final(self)@ == Set::<T::V>::empty(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures
            r == self@.len(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures
            r == (self@ == Set::<T::V>::empty()),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures
            r@ == self@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VIter<T>)
        ensures
            r@ == set_order(self),
    {
        unimplemented!()
    }

    // self.difference(other).next().is_some()
    #[verifier::external_body]
    pub fn vx_has_more_than(&self, other: &Self) -> (r: bool)
        ensures
            r == exists|k: T::V| #[trigger] self@.contains(k) && !other@.contains(k),
    {
        unimplemented!()
    }

    // self.difference(other).copied().collect()
    #[verifier::external_body]
    pub fn vx_minus(&self, other: &Self) -> (r: Self)
        ensures
            r@ == self@.difference(other@),
    {
        unimplemented!()
    }
}

impl<T: View> PartialEq for VSet<T> {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) {
        unimplemented!()
    }
}

impl<T: View> PartialEqSpecImpl for VSet<T> {
    open spec fn obeys_eq_spec() -> bool {
        true
    }

    open spec fn eq_spec(&self, o: &Self) -> bool {
        self@ == o@
    }
}

impl<T: View> VxFrom<T> for VSet<T> {
    open spec fn vx_is(s: Seq<T>, r: Self) -> bool {
        r@ == view_set(s)
    }
}

impl<T: View> VxInto for VSet<T> {
    type Item = T;

    open spec fn vx_seq(self) -> Seq<T> {
        set_order(self)
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<T>) {
        unimplemented!()
    }
}

impl<'a, T: View> VxInto for &'a VSet<T> {
    type Item = &'a T;

    open spec fn vx_seq(self) -> Seq<&'a T> {
        Seq::new(set_order(*self).len(), |i: int| &set_order(*self)[i])
    }

    #[verifier::external_body]
    fn vx_into_iter(self) -> (r: VIter<&'a T>) {
        unimplemented!()
    }
}
