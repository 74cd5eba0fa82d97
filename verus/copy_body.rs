// ------------------------------------------------------------------ copies of an image
/// assumed contract of the iterator of the lru crate: every entry once, most recently used first
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
struct LruIter<'a, K, V> { k: std::marker::PhantomData<&'a (K, V)> }
impl<'a, K, V> LruIter<'a, K, V> {
    uninterp spec fn left(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures match r { Some(e) => old(self).left().len() > 0 && (*e.0, *e.1) == old(self).left()[0] && final(self).left() == old(self).left().skip(1), None => old(self).left().len() == 0 && final(self).left() == old(self).left() }
    { unimplemented!() }
}
impl<K, V> LruCache<K, V> {
    #[verifier::external_body]
    fn iter<'a>(&'a self) -> (r: LruIter<'a, K, V>)
        requires self.wf()
        ensures r.left() == self.entries()
    { unimplemented!() }
    spec fn entries(&self) -> Seq<(K, V)> { Seq::new(self.order().len(), |i: int| (self.order()[self.order().len() - 1 - i], self.map()[self.order()[self.order().len() - 1 - i]])) }
}
proof fn filter_all<A>(s: Seq<A>, f: spec_fn(A) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i])
    ensures s.filter(f) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 { filter_all(s.drop_last(), f); assert(s.drop_last().push(s.last()) =~= s); } else { assert(s.filter(f) =~= s); }
}
/// the first n entries of a have been put into c
spec fn copied<K, V>(a: LruCache<K, V>, c: LruCache<K, V>, n: int) -> bool {
    &&& c.wf() && c.room() == a.room() && c.order().len() == n
    &&& forall|i: int| 0 <= i < n ==> #[trigger] c.order()[i] == a.order()[a.order().len() - 1 - i]
    &&& forall|k: K| #[trigger] c.map().contains_key(k) ==> c.map()[k] == a.map()[k]
}
proof fn copy_one<K, V>(a: LruCache<K, V>, c: LruCache<K, V>, n: int)
    requires a.wf(), copied(a, c, n), 0 <= n < a.order().len()
    ensures ({ let k = a.order()[a.order().len() - 1 - n]; !c.map().contains_key(k) && c.order().len() < c.room() && c.used(k) == c.order().push(k) })
{
    let k = a.order()[a.order().len() - 1 - n];
    if c.order().contains(k) { let i = choose|i: int| 0 <= i < c.order().len() && c.order()[i] == k; assert(c.order()[i] == a.order()[a.order().len() - 1 - i]); assert(false); }
    assert forall|i: int| 0 <= i < c.order().len() implies #[trigger] c.order()[i] != k by { assert(c.order().contains(c.order()[i])); }
    filter_all(c.order(), |x: K| x != k);
}
proof fn copy_all<K, V>(a: LruCache<K, V>, c: LruCache<K, V>)
    requires a.wf(), copied(a, c, a.order().len() as int)
    ensures c.map() == a.map()
{
    let n = a.order().len();
    assert forall|k: K| c.map().contains_key(k) == #[trigger] a.map().contains_key(k) by {
        if c.map().contains_key(k) { assert(c.order().contains(k)); let i = choose|i: int| 0 <= i < c.order().len() && c.order()[i] == k; assert(a.order()[n - 1 - i] == k); assert(a.order().contains(k)); }
        if a.map().contains_key(k) { assert(a.order().contains(k)); let i = choose|i: int| 0 <= i < n && a.order()[i] == k; assert(c.order()[n - 1 - i] == k); assert(c.order().contains(k)); }
    }
    assert(c.map() =~= a.map());
}
/// the copy of a pixel buffer is the same
spec fn faithful<S: Clone>() -> bool { forall|s: S, t: S| #[trigger] call_ensures(<S as Clone>::clone, (&s,), t) ==> t == s }
/// what matters of an image between queries: its pixels and what is known of its regions, not which one was used last
spec fn same_state<S>(a: &PreparedImage<S>, b: &PreparedImage<S>) -> bool { b.buffer == a.buffer && b.cache.wf() && b.cache.room() == a.cache.room() && b.cache.map() == a.cache.map() && b.cache.order().len() == a.cache.order().len() }
impl<S> PreparedImage<S> where S: ImageBuffer + Clone {
    //@fn src/prepare.rs PreparedImage::Clone::clone iter=lru
    //@ret r
    //@sig
        requires self.cache.wf(), faithful::<S>(), self.cache.room() > 0
        ensures same_state(self, &r)
    //@start
        let ghost a = self.cache; let ghost n = a.order().len() as int; let ghost mut j = 0int;
    //@loop 0
        invariant a == self.cache, a.wf(), n == a.order().len(), 0 <= j <= n, _it0.left() == a.entries().skip(j), copied(a, cache, j)
        ensures j == n, copied(a, cache, j)
        decreases n - j
    //@loop 0 begin
        proof { assert(_it0.left() =~= a.entries().skip(j + 1)); copy_one(a, cache, j); }
    //@loop 0 end
        proof { j = j + 1; }
    //@loop 0 after
        proof { copy_all(a, cache); }
    //@endfn
}
