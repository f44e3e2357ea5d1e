// std::collections::HashMap, for the operations the lifted code uses (trusted contracts)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VMap<K, V> {
    k: K,
    v: V,
}

impl<K, V> View for VMap<K, V> {
    type V = Map<K, V>;

    uninterp spec fn view(&self) -> Map<K, V>;
}

impl<K, V> VMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures
            r@ == Map::<K, V>::empty(),
    {
        unimplemented!()
    }

    // .entry(k).or_insert_with(f)
    #[verifier::external_body]
    pub fn vx_entry_or_insert_with<F: FnOnce() -> V>(&mut self, k: K, f: F) -> (r: &mut V)
        requires
            call_requires(f, ()),
        ensures
            old(self)@.dom().contains(k) ==> *r == old(self)@[k],
            !old(self)@.dom().contains(k) ==> call_ensures(f, (), *r),
            final(self)@ == old(self)@.insert(k, *final(r)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r == if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            r == if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> },
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures
            self@.dom().contains(*k) ==> r == Some(&self@[*k]),
            !self@.dom().contains(*k) ==> r is None,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures
            r == self@.dom().contains(*k),
    {
        unimplemented!()
    }

    // each entry once, in some order
    #[verifier::external_body]
    pub fn vx_entries(&self) -> (r: VIter<(&K, &V)>)
        ensures
            forall|i: int|
                #![trigger r@[i]]
                0 <= i < r@.len() ==> self@.dom().contains(*(r@[i].0)) && self@[*(r@[i].0)] == *(r@[i].1),
            forall|i: int, j: int|
                #![trigger r@[i], r@[j]]
                0 <= i < j < r@.len() ==> *(r@[i].0) != *(r@[j].0),
            forall|k: K| #[trigger]
                self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *((#[trigger] r@[i]).0) == k,
    {
        unimplemented!()
    }
}
