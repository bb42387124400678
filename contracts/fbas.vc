//@ nodes and keys under every history of changes
@fn generate_generic_node_name
@formats
@spec
    ensures r == generic_name(node_id)
@entry
    broadcast use ax_string_ext;
@tail
    proof { assert(vp_tail@ =~= seq!['n'] + dec(node_id)); }

@fn QuorumSet::new
@spec
    ensures r.threshold == 0, r.validators@.len() == 0, r.inner_quorum_sets@.len() == 0, blank(r)

@fn Node::new
@spec
    ensures r.public_key == public_key, r.quorum_set.threshold == 0, r.quorum_set.validators@.len() == 0, r.quorum_set.inner_quorum_sets@.len() == 0

@fn Fbas::new
@spec
    ensures r.nodes@.len() == 0, keyed(r)

@fn Fbas::add_node
@panic has_key(*old(self), node.public_key)
@spec
    requires keyed(*old(self)), old(self).nodes@.len() < usize::MAX
    ensures !has_key(*old(self), node.public_key), keyed(*final(self)), appended(*old(self), *final(self), node), r == old(self).nodes@.len()
@entry
    proof { lem_no_key(*self, node.public_key); }

@fn Fbas::add_generic_node
@spec
    requires keyed(*old(self)), old(self).nodes@.len() < usize::MAX
    ensures keyed(*final(self)), r == old(self).nodes@.len(), final(self).nodes@.len() == old(self).nodes@.len() + 1,
        !has_key(*old(self), generic_name(r)),
        final(self).nodes@.drop_last() == old(self).nodes@, final(self).nodes@.last().public_key == generic_name(r), final(self).nodes@.last().quorum_set == quorum_set
@tail
    proof { assert(self.nodes@.drop_last() =~= old(self).nodes@); }

@fn Fbas::new_generic_unconfigured
@spec
    ensures r.nodes@.len() == n, keyed(r), generic(r)
@loop 1
    it1_all == range_seq(0, n), fbas.nodes@.len() == it1.pos(), keyed(fbas), generic(fbas),
@loopbegin 1
    proof { assert(!has_key(fbas, generic_name(it1_i as usize))) by { if has_key(fbas, generic_name(it1_i as usize)) { let i = choose|i: int| 0 <= i < fbas.nodes@.len() && #[trigger] fbas.nodes@[i].public_key == generic_name(it1_i as usize); lem_generic_name(i as usize, it1_i as usize); } } }
    let ghost f0 = fbas;
@loopend 1
    proof { assert forall|i: int| 0 <= i < fbas.nodes@.len() implies #[trigger] fbas.nodes@[i].public_key == generic_name(i as usize) by { if i < it1_i { assert(fbas.nodes@.drop_last()[i] == fbas.nodes@[i]); } } }

@fn Fbas::get_node_id
@spec
    requires keyed(*self)
    ensures match r {
        None => forall|i: int| 0 <= i < self.nodes@.len() ==> (#[trigger] self.nodes@[i]).public_key@ != public_key@,
        Some(i) => i < self.nodes@.len() && self.nodes@[i as int].public_key@ == public_key@,
    }
@entry
    broadcast use ax_string_ext;

@fn Fbas::get_quorum_set
@spec
    ensures r == if node_id < self.nodes@.len() { Some(self.nodes@[node_id as int].quorum_set) } else { None }
@closure 1 : QuorumSet
    requires true, ensures vr == $1.quorum_set,

@fn Fbas::swap_quorum_set
@spec
    requires node_id < old(self).nodes@.len(), keyed(*old(self))
    ensures keyed(*final(self)), r == old(self).nodes@[node_id as int].quorum_set, final(self).nodes@.len() == old(self).nodes@.len(),
        final(self).nodes@[node_id as int].quorum_set == quorum_set,
        forall|i: int| 0 <= i < old(self).nodes@.len() ==> (#[trigger] final(self).nodes@[i]).public_key == old(self).nodes@[i].public_key && (i != node_id ==> final(self).nodes@[i] == old(self).nodes@[i])

@fn <PartialEq for Fbas>::eq
@tail
    proof { assert(vp_tail ==> self.nodes@ =~= other.nodes@); assert(self.nodes@ == other.nodes@ ==> vp_tail); }

@fn <Ord for Fbas>::cmp
@spec
    ensures (r == Ordering::Equal) == (self.nodes@ == other.nodes@)

@fn <PartialOrd for Fbas>::partial_cmp
@spec
    ensures r is Some, (r->0 == Ordering::Equal) == (self.nodes@ == other.nodes@)

@fn <Hash for Fbas>::hash
@spec
    ensures *final(state) == hashed(*old(state), self.nodes@)
