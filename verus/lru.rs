/// std: a usize that is not zero
#[derive(Clone, Copy)]
struct NonZeroUsize { v: usize }
impl NonZeroUsize {
    fn new(v: usize) -> (r: Option<NonZeroUsize>) ensures v != 0 ==> r is Some && r->Some_0.v == v { if v == 0 { None } else { Some(NonZeroUsize { v }) } }
    fn get(self) -> (r: usize) ensures r == self.v { self.v }
}
/// assumed contract of the lru crate: a map with the order of last use, least recent first
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct LruCache<K, V> { k: std::marker::PhantomData<(K, V)> }
impl<K, V> LruCache<K, V> {
    uninterp spec fn map(&self) -> Map<K, V>;
    uninterp spec fn order(&self) -> Seq<K>;
    uninterp spec fn room(&self) -> nat;
    spec fn wf(&self) -> bool { self.order().len() <= self.room() && self.map().dom().len() == self.order().len() && self.order().no_duplicates() && forall|k: K| self.map().contains_key(k) <==> #[trigger] self.order().contains(k) }
    spec fn used(&self, k: K) -> Seq<K> { self.order().filter(|x: K| x != k).push(k) }
    #[verifier::external_body]
    fn new(cap: NonZeroUsize) -> (r: Self) ensures r.wf(), r.room() == cap.v, r.map() == Map::<K, V>::empty(), r.order().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn cap(&self) -> (r: NonZeroUsize) ensures r.v == self.room() { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    fn get<'a>(&'a mut self, k: &K) -> (r: Option<&'a V>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).room() == old(self).room(), final(self).map() == old(self).map(),
            match r { Some(v) => old(self).map().contains_key(*k) && *v == old(self).map()[*k] && final(self).order() == old(self).used(*k),
                None => !old(self).map().contains_key(*k) && final(self).order() == old(self).order() }
    { unimplemented!() }
    #[verifier::external_body]
    fn put(&mut self, k: K, v: V) -> (r: Option<V>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).room() == old(self).room(),
            old(self).map().contains_key(k) || old(self).order().len() < old(self).room() ==> final(self).map() == old(self).map().insert(k, v) && final(self).order() == old(self).used(k),
            !old(self).map().contains_key(k) && old(self).order().len() == old(self).room() ==> final(self).map() == old(self).map().remove(old(self).order()[0]).insert(k, v) && final(self).order() == old(self).order().skip(1).push(k)
    { unimplemented!() }
    #[verifier::external_body]
    fn pop_lru(&mut self) -> (r: Option<(K, V)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).room() == old(self).room(),
            match r { Some(e) => old(self).order().len() > 0 && e.0 == old(self).order()[0] && old(self).map().contains_key(e.0) && e.1 == old(self).map()[e.0] && final(self).map() == old(self).map().remove(e.0) && final(self).order() == old(self).order().skip(1),
                None => old(self).order().len() == 0 && final(self).map() == old(self).map() && final(self).order() == old(self).order() }
    { unimplemented!() }
}
