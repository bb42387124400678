// ------------------------------------------------------------------ simulation
use std::rc::Rc;
use Event::*;
use ChangeEffect::*;
pub open spec fn max_n() -> int { 0x8_0000_0000_0000 }
/// no quorum set names a node beyond any that could exist
pub open spec fn in_bounds(f: Fbas) -> bool { forall|j: int, x: usize| #![trigger qn(f.nodes@[j].quorum_set).contains(x)] 0 <= j < f.nodes@.len() && qn(f.nodes@[j].quorum_set).contains(x) ==> x < max_n() }
/// what stays when node `i` is configured: everything but its quorum set
pub open spec fn kept(f: Fbas, g: Fbas, i: int) -> bool {
    &&& g.pk_to_id@ == f.pk_to_id@ && g.nodes@.len() == f.nodes@.len()
    &&& forall|j: int| 0 <= j < f.nodes@.len() ==> (#[trigger] g.nodes@[j]).public_key == f.nodes@[j].public_key && (j != i ==> g.nodes@[j] == f.nodes@[j])
}
pub open spec fn unchanged(f: Fbas, g: Fbas) -> bool { g.nodes@ == f.nodes@ && g.pk_to_id@ == f.pk_to_id@ }
/// the trait as the source declares it, with the contract every configurator is held to
pub trait QuorumSetConfigurator {
    /// well-formed, and able to configure an FBAS of `n` nodes
    spec fn fits(&self, n: int) -> bool;
    /// what this configurator prescribes for node `i`
    spec fn prescribed(&self, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool;
    fn configure(&self, node_id: NodeId, fbas: &mut Fbas) -> (r: ChangeEffect)
        requires node_id < old(fbas).nodes@.len() <= max_n(), self.fits(old(fbas).nodes@.len() as int), in_bounds(*old(fbas))
        ensures in_bounds(*final(fbas)), kept(*old(fbas), *final(fbas), node_id as int), r == NoChange ==> unchanged(*old(fbas), *final(fbas)),
            self.prescribed(node_id, *old(fbas), *final(fbas), r);
}
pub trait SimulationMonitor {
    fn register_event(&self, event: Event);
}
/// the events a monitor was told through this handle (interior mutability made visible)
pub trait VMonitor {
    spec fn log(&self) -> Seq<Event>;
    fn v_register_event(&mut self, event: Event)
        ensures final(self).log() == old(self).log().push(event);
}
impl VMonitor for Rc<dyn SimulationMonitor> {
    uninterp spec fn log(&self) -> Seq<Event>;
    #[verifier::external_body]
    fn v_register_event(&mut self, event: Event) { unimplemented!() }
}
/// what a round reports: each node of `order` once, in that order
pub open spec fn round_log(order: Seq<usize>, cs: Seq<ChangeEffect>) -> Seq<Event> { seq![StartGlobalReevaluationRound] + Seq::new(order.len(), |k: int| QuorumSetChange(order[k], cs[k])) }
pub open spec fn has_change(cs: Seq<ChangeEffect>) -> bool { exists|k: int| 0 <= k < cs.len() && #[trigger] cs[k] == Change }
/// from `f` to `g` by configuring the nodes of `order` one after the other, with the outcomes `cs`
pub open spec fn round_from(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, order: Seq<usize>, cs: Seq<ChangeEffect>) -> bool
    decreases order.len(),
{
    cs.len() == order.len() && if order.len() == 0 { unchanged(f, g) } else {
        exists|m: Fbas| round_from(q, f, m, order.drop_last(), cs.drop_last()) && #[trigger] step(q, order.last(), m, g, cs.last()) }
}
pub open spec fn step(q: Rc<dyn QuorumSetConfigurator>, i: usize, f: Fbas, g: Fbas, c: ChangeEffect) -> bool { kept(f, g, i as int) && (c == NoChange ==> unchanged(f, g)) && q.prescribed(i, f, g, c) }
pub open spec fn is_order(o: Seq<usize>, n: int) -> bool { is_perm(range_seq(0, n as usize), o) }
/// `k` rounds over all nodes, each but the last with a change; `last`: the last one had a change too
pub open spec fn rounds(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, log: Seq<Event>, k: int, last: bool) -> bool
    decreases k,
{
    if k <= 0 { k == 0 && last && unchanged(f, g) && log.len() == 0 } else {
        exists|m: Fbas, l: Seq<Event>| rounds(q, f, m, l, k - 1, true) && #[trigger] one_more(q, m, g, l, log, last) }
}
pub open spec fn one_more(q: Rc<dyn QuorumSetConfigurator>, m: Fbas, g: Fbas, l: Seq<Event>, log: Seq<Event>, last: bool) -> bool {
    exists|o: Seq<usize>, cs: Seq<ChangeEffect>| #[trigger] one_round(q, m, g, o, cs) && log == l + round_log(o, cs) && last == has_change(cs)
}
pub open spec fn one_round(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, o: Seq<usize>, cs: Seq<ChangeEffect>) -> bool { is_order(o, f.nodes@.len() as int) && round_from(q, f, g, o, cs) }
/// rounds until one changes nothing or the limit is reached
pub open spec fn reevaluated(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, log: Seq<Event>, k: int, limit: int) -> bool {
    exists|l: Seq<Event>, last: bool| #[trigger] rounds(q, f, g, l, k, last) && k <= limit && (last ==> k == limit) && log == (seq![StartGlobalReevaluation] + l).push(FinishGlobalReevaluation(k as usize))
}
pub open spec fn with_new(f: Fbas, g: Fbas) -> bool {
    &&& g.nodes@.len() == f.nodes@.len() + 1 && g.nodes@.drop_last() == f.nodes@
    &&& g.nodes@.last().public_key == generic_name(f.nodes@.len() as usize) && !has_key(f, g.nodes@.last().public_key) && blank(g.nodes@.last().quorum_set)
    &&& keyed(g)
}
pub open spec fn grown_one(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, log: Seq<Event>) -> bool {
    let i = f.nodes@.len() as usize;
    exists|a: Fbas, b: Fbas, c: ChangeEffect, l: Seq<Event>, k: int| with_new(f, a) && #[trigger] step(q, i, a, b, c) && #[trigger] reevaluated(q, b, g, l, k, i + 1) && log == seq![AddNode(i)] + l
}
pub open spec fn grown(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, g: Fbas, log: Seq<Event>, n: int) -> bool
    decreases n,
{
    if n <= 0 { n == 0 && unchanged(f, g) && log.len() == 0 } else {
        exists|m: Fbas, l: Seq<Event>| grown(q, f, m, l, n - 1) && #[trigger] grown_more(q, m, g, l, log) }
}
pub open spec fn grown_more(q: Rc<dyn QuorumSetConfigurator>, m: Fbas, g: Fbas, l: Seq<Event>, log: Seq<Event>) -> bool { exists|l2: Seq<Event>| #[trigger] grown_one(q, m, g, l2) && log == l + l2 }
/// nodes keep their numbers and keys
pub open spec fn keys_kept(f: Fbas, g: Fbas) -> bool { f.nodes@.len() <= g.nodes@.len() && forall|j: int| 0 <= j < f.nodes@.len() ==> (#[trigger] g.nodes@[j]).public_key == f.nodes@[j].public_key }
pub open spec fn named_from(g: Fbas, n: int) -> bool { forall|j: int| n <= j < g.nodes@.len() ==> (#[trigger] g.nodes@[j]).public_key == generic_name(j as usize) }
pub proof fn lem_kept_keyed(f: Fbas, g: Fbas, i: int)
    requires keyed(f), kept(f, g, i)
    ensures keyed(g), keys_kept(f, g)
{
    assert forall|j: int| 0 <= j < g.nodes@.len() implies g.pk_to_id@.dom().contains(#[trigger] g.nodes@[j].public_key) && g.pk_to_id@[g.nodes@[j].public_key] == j by { assert(f.pk_to_id@.dom().contains(f.nodes@[j].public_key)); }
    assert forall|k: String| #[trigger] g.pk_to_id@.dom().contains(k) implies g.pk_to_id@[k] < g.nodes@.len() && g.nodes@[g.pk_to_id@[k] as int].public_key == k by { assert(f.nodes@[f.pk_to_id@[k] as int].public_key == k); }
}
pub proof fn lem_order(o: Seq<usize>, n: usize)
    requires is_order(o, n as int)
    ensures forall|k: int| 0 <= k < o.len() ==> #[trigger] o[k] < n
{ lem_shuffled(n, o); }
pub proof fn lem_round_log(order: Seq<usize>, cs: Seq<ChangeEffect>, k: int, c: ChangeEffect)
    requires 0 <= k < order.len(), cs.len() == k
    ensures round_log(order.take(k + 1), cs.push(c)) == round_log(order.take(k), cs).push(QuorumSetChange(order[k], c)), has_change(cs.push(c)) == (has_change(cs) || c == Change)
{
    assert(round_log(order.take(k + 1), cs.push(c)) =~= round_log(order.take(k), cs).push(QuorumSetChange(order[k], c)));
    let d = cs.push(c);
    assert(d[k] == c);
    if has_change(cs) { let z = choose|z: int| 0 <= z < cs.len() && #[trigger] cs[z] == Change; assert(d[z] == Change); }
    if has_change(d) { let z = choose|z: int| 0 <= z < d.len() && #[trigger] d[z] == Change; if z < k { assert(cs[z] == Change); } }
}
pub proof fn lem_round_step(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, m: Fbas, g: Fbas, order: Seq<usize>, cs: Seq<ChangeEffect>, k: int, c: ChangeEffect)
    requires 0 <= k < order.len(), round_from(q, f, m, order.take(k), cs), step(q, order[k], m, g, c)
    ensures round_from(q, f, g, order.take(k + 1), cs.push(c))
{
    assert(order.take(k + 1).drop_last() =~= order.take(k));
    assert(cs.push(c).drop_last() =~= cs);
    assert(order.take(k + 1).last() == order[k]);
    assert(step(q, order.take(k + 1).last(), m, g, cs.push(c).last()));
}
pub proof fn lem_rounds_step(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, m: Fbas, g: Fbas, l: Seq<Event>, o: Seq<usize>, cs: Seq<ChangeEffect>, k: int)
    requires 0 <= k, rounds(q, f, m, l, k, true), one_round(q, m, g, o, cs)
    ensures rounds(q, f, g, l + round_log(o, cs), k + 1, has_change(cs))
{
    let kk = k + 1;
    assert(one_more(q, m, g, l, l + round_log(o, cs), has_change(cs)));
}
pub proof fn lem_grown_step(q: Rc<dyn QuorumSetConfigurator>, f: Fbas, m: Fbas, g: Fbas, l: Seq<Event>, l2: Seq<Event>, n: int)
    requires 0 <= n, grown(q, f, m, l, n), grown_one(q, m, g, l2)
    ensures grown(q, f, g, l + l2, n + 1)
{
    let nn = n + 1;
    assert(grown_more(q, m, g, l, l + l2));
}
pub proof fn lem_blank_in(f: Fbas, g: Fbas)
    requires in_bounds(f), g.nodes@.len() == f.nodes@.len() + 1, g.nodes@.drop_last() == f.nodes@, blank(g.nodes@.last().quorum_set)
    ensures in_bounds(g)
{
    assert forall|j: int, x: usize| #![trigger qn(g.nodes@[j].quorum_set).contains(x)] 0 <= j < g.nodes@.len() && qn(g.nodes@[j].quorum_set).contains(x) implies x < max_n() by {
        if j < f.nodes@.len() { assert(g.nodes@.drop_last()[j] == f.nodes@[j]); assert(qn(f.nodes@[j].quorum_set).contains(x)); }
        else { lem_flat_plain(g.nodes@[j].quorum_set); }
    }
}
/// without inner quorum sets only the validators count
pub proof fn lem_flat_plain(q: QuorumSet)
    requires q.inner_quorum_sets@.len() == 0
    ensures flat(q) == q.validators@, forall|x: usize| #[trigger] qn(q).contains(x) <==> q.validators@.contains(x)
{
    assert(flat(q) =~= q.validators@);
}
